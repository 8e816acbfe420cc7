"""Abstract interpretation of assemble_prog for a line of every directive and instruction, with every
number of operands from none to three and every combination of operand kinds (abstract integer,
abstract floating point number, string, register, list, empty, immediate, undefined symbol, local
label with no occurrence).  A legality table written from the documentation says which combinations
the line can use; every partition of an unusable combination must carry an error diagnostic, and every
usable one must not be refused."""
import itertools
from common import *
RULE = 'subject = (directive or mnemonic, operand count); obligation = (combination of operand kinds, trace partition)'
TECHNIQUE = 'abstract interpretation of the assembler over every combination of operand kinds, against a legality table'

KINDS = ('int', 'float', 'str', 'reg', 'regA', 'empty', 'list', 'undef', 'imm', 'back')
VAL = {'int', 'float', 'empty', 'imm'}


def spec(ctx, k, j=0, lo=0, hi=100):
    n = 'v%d' % j
    return {'int': lambda: ('int', v64(n, lo, hi)), 'float': lambda: ('float', fin(n)), 'str': lambda: ('str', 'ab'),
            'reg': lambda: reg('X'), 'regA': lambda: reg('A'), 'empty': lambda: ('empty',), 'list': lambda: ('arr', [('int', v64(n, lo, hi))]),
            'undef': lambda: ('id', ['nowhere']), 'imm': lambda: imm(ctx, ('int', v64(n, lo, hi))), 'back': lambda: ('back', 3), 'none': lambda: None}[k]()


def kinds_ok(*sets):
    return lambda c: len(c) == len(sets) and all(k in s for k, s in zip(c, sets))


def data(extra):
    return lambda c: len(c) >= 1 and all(k in VAL | extra for k in c)


def between(lo, hi, *allowed):
    return lambda c: lo <= len(c) <= hi and all(k in VAL for k in c)


# documented operand shapes.  True: must assemble; False: must be diagnosed; None: not specified
DIRECTIVES = {}
for _m in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci'):
    DIRECTIVES[_m] = (data({'str'}), 2)
for _m in ('fdb', 'fqb'):
    DIRECTIVES[_m] = (data(set()), 2)
DIRECTIVES['fill'] = (between(2, 2), 3)
for _m in ('rzb', 'zmb', 'bsz', 'fzb'):
    DIRECTIVES[_m] = (between(1, 2), 3)
for _m in ('rmb', 'org', 'put', 'setdp'):
    DIRECTIVES[_m] = (between(1, 1), 2)
DIRECTIVES['section'] = (lambda c: c == ('str',), 2)
DIRECTIVES['includebin'] = (lambda c: c == ('str',), 2)
DIRECTIVES['include'] = (lambda c: True if c == ('str',) else None if len(c) > 1 and c[0] == 'str' and not {'undef', 'back'} & set(c) else False, 2)
DIRECTIVES['end'] = (lambda c: len(c) == 0 or (len(c) == 1 and c[0] in VAL) or (None if len(c) == 1 and c[0] in ('str', 'reg', 'regA', 'list') else False), 2)
DEFINED = lambda c: len(c) == 1 and c[0] not in ('undef', 'back')
DIRECTIVES['equ'] = (DEFINED, 2)
DIRECTIVES['set'] = (DEFINED, 2)
DIRECTIVES['export'] = (lambda c: None if not c or all(k in ('str', 'undef', 'empty') for k in c) else False, 2)
DIRECTIVES['if'] = (lambda c: None if c in (('undef',), ('back',)) else (len(c) == 1 and c[0] in VAL) or (None if len(c) == 1 and c[0] == 'str' else False), 2)
DIRECTIVES['unknownop'] = (lambda c: False, 1)
# ALIGN loops up to the boundary: the boundary is given as a constant
DIRECTIVES['align'] = (lambda c: None if c and c[0] == 'empty' and between(1, 2)(c) else between(1, 2)(c), 3)
COUNTS = {'rzb', 'zmb', 'bsz', 'fzb', 'fill'}
LABELLED = {'equ', 'set'}


def alignspec(ctx, k, j):
    if k == 'int':
        return ('int', 4) if j == 0 else spec(ctx, k, j)
    if k == 'imm':
        return imm(ctx, ('int', 4)) if j == 0 else spec(ctx, k, j)
    if k == 'float':
        return ('float', 4.0)
    if k == 'list':
        return ('arr', [('int', 4)])
    return spec(ctx, k, j)


def subject(m, n, ok, isa, first=None):
    def go(ctx, rep):
        ctx.M.files = {b'ab': list(b' nop\n')}
        for c in itertools.product(KINDS, repeat=n):
            if first is not None and (not c or c[0] != first):
                continue
            want = ok(c)
            hi = 2 if m in COUNTS else 100
            args = [alignspec(ctx, k, j) if m == 'align' else spec(ctx, k, j, 0, hi) if k != 'float' or m not in COUNTS else ('float', 2.0) for j, k in enumerate(c)]
            lines = [(('id', ['lab']) if m in LABELLED else None, m, args if n else None)]
            if m in ('include', 'includebin') and want is None:
                continue
            if m == 'if':
                lines.append((None, 'endif', None))
            ps = asm(ctx, lines, isa=isa)
            one(ctx, rep, m, c, ps, want)
    return go


def one(ctx, rep, m, c, ps, want):
    name = '%s %s' % (m, ','.join(c) or 'without operands')
    obs0 = line_obs(ctx)

    def obs(p):
        o = obs0(p)
        if o['cls'] == 'exit':
            o['cls'] = 'err'
        return o
    w = {True: 'usable', False: 'unusable', None: 'unspecified'}[want]
    if want is True:
        # values out of the directive's range are a matter of other properties: some partition must be accepted
        oks = 0
        for p in ps:
            if p.status == 'alarm':
                compare(ctx, rep, [p], [Case(w, [], cls=ANY)], obs, seed=ctx.seed)
                continue
            oks += obs(p)['cls'] == 'ok'
        if oks:
            rep.ok()
            rep.cases[w] = rep.cases.get(w, 0) + 1
        else:
            rep.violation(name, 'a usable combination of operands is always refused: %s' % name)
        return
    old = rep.cur
    rep.cur = '%s: operands %s' % (old, ','.join(c) or 'none')
    compare(ctx, rep, ps, [Case(w, [], cls='err' if want is False else ANY)], obs, seed=ctx.seed)
    rep.cur = old


# ---- instructions: which kinds each mode can use
def memop(isa, m):
    """loads, stores, arithmetic, jumps: legality of operand kinds"""
    d = INSTR[isa][m]
    hasimm = bool({'imm8', 'imm16', 'imm32'} & set(d))
    hasmem = bool({'dir', 'ext'} & set(d))
    hasidx = 'idx' in d

    def ok(c):
        if {'undef', 'back'} & set(c) or not c:
            return 'inh' in d and not c
        if len(c) == 1:
            k = c[0]
            if k == 'imm':
                return hasimm
            if k in ('int', 'float'):
                # LEA with a plain address: encoded, with a warning that the form is illegal
                return hasmem or None
            if k == 'list':
                return hasidx or False
            if k == 'str':
                return None
            return False
        if len(c) == 2:
            if c[1] == 'reg':
                if c[0] in ('int', 'float', 'empty', 'regA'):
                    return hasidx or False
                return None if c[0] == 'str' and hasidx else False
            return None if c[0] == 'imm' and c[1] in ('reg',) else False
        return False
    return ok


def branch(isa, m):
    return lambda c: len(c) == 1 and c[0] in ('int', 'float')


def immonly(isa, m):
    return lambda c: (None if c == ('str',) else False) if c != ('imm',) else True


def regpair(isa, m):
    def ok(c):
        if len(c) != 2 or {'undef', 'back', 'list', 'str', 'empty', 'imm'} & set(c):
            return False if len(c) != 2 or {'undef', 'back', 'list', 'str', 'empty'} & set(c) else None
        return True if all(k in ('reg', 'regA', 'int') for k in c) else None
    return ok


def stackop(isa, m):
    def ok(c):
        if not c:
            return None
        return True if all(k in ('reg', 'regA') for k in c) else None if all(k in ('reg', 'regA', 'imm', 'int', 'float', 'empty') for k in c) and ('imm' in c or len(c) == 1) else False
    return ok


def immmem(isa, m):
    MEM = {'int', 'float'}

    def ok(c):
        if len(c) == 3:
            return True if c[0] in ('imm', 'int', 'float') and c[1] in ('int', 'float', 'empty', 'regA') and c[2] == 'reg' else None if c[0] in ('str', 'empty') and c[2] == 'reg' and c[1] in ('int', 'float', 'empty', 'regA', 'str') else None if c[1] == 'str' and c[2] == 'reg' and c[0] in ('imm', 'int', 'float') else False
        if len(c) != 2:
            return False
        if c[0] in ('undef', 'back', 'list', 'reg', 'regA') or c[1] in ('undef', 'back', 'reg', 'regA', 'empty', 'imm'):
            return False
        if c[0] in ('str', 'empty') or c[1] == 'str':
            return None
        return True
    return ok


LEGAL_BIT = ('regA', 'int', 'int', 'int')


def bitop(m):
    """register-bit operations: vary every pair of the four operands around a legal line"""
    OKB = (({'regA', 'int'}, {'imm'}), ({'int', 'imm', 'float'}, {'empty', 'str'}), ({'int', 'imm', 'float'}, {'empty', 'str'}), ({'int', 'float'}, {'str', 'imm', 'empty'}))

    def want(c):
        if len(c) != 4:
            return False
        if any(k in ('undef', 'back', 'list', 'reg') for k in c) or c[0] in ('empty', 'str', 'reg'):
            return False
        if any(k == 'regA' for k in c[1:]):
            return False
        if all(k in o for k, (o, _) in zip(c, OKB)) and c[0] != 'int':
            return True
        return None

    def go(ctx, rep):
        for n in range(0, 6):
            if n != 4:
                c = (LEGAL_BIT + ('int',))[:n]
                one(ctx, rep, m, c, asm(ctx, [(None, m, [spec(ctx, k, j, 0, 7) for j, k in enumerate(c)] if n else None)], isa=1), False)
        seen = set()
        for i in range(4):
            for j in range(i + 1, 4):
                for a in KINDS:
                    for b in KINDS:
                        c = list(LEGAL_BIT)
                        c[i], c[j] = a, b
                        c = tuple(c)
                        if c in seen:
                            continue
                        seen.add(c)
                        one(ctx, rep, m, c, asm(ctx, [(None, m, [spec(ctx, k, q, 0, 7) for q, k in enumerate(c)])], isa=1), want(c))
    return go


def shape(isa, m):
    d = set(INSTR[isa][m])
    if d == {'inh'}:
        return (lambda c: not c), 1
    if d & {'rel8', 'rel16'}:
        return branch(isa, m), 2
    if d == {'pair'}:
        return regpair(isa, m), 2
    if d == {'tfm'}:
        # plain registers: neither incremented nor decremented, no such transfer
        return (lambda c: None if len(c) == 2 and set(c) <= {'int', 'float', 'imm', 'empty'} else False), 2
    if d & {'stks', 'stku'}:
        return stackop(isa, m), 2
    if d & {'immdir', 'immext', 'immidx'}:
        return immmem(isa, m), 3
    if d <= {'imm8', 'imm16', 'imm32'}:
        return immonly(isa, m), 2
    if d <= {'dir', 'ext', 'idx', 'imm8', 'imm16', 'imm32', 'inh'}:
        return memop(isa, m), 2
    return None, 0


UNDEF = ('id', ['nowhere'])
DEEP = {'undef+1': ('op', '+', UNDEF, ('int', 1)), '1-undef': ('op', '-', ('int', 1), UNDEF), '-undef': ('op', '-', UNDEF), '1<2b': ('op', '<', ('int', 1), ('back', 2)),
        '1?undef:2': ('op', '?', ('int', 1), UNDEF, ('int', 2)), '0||undef': ('op', 'LOR', ('int', 0), UNDEF), '5f': ('fwd', 5), '#undef': None, '<undef': None, '[undef]': ('arr', [UNDEF])}


def deep(isa, m):
    """an undefined symbol inside an expression, in every operand position next to usable operands"""
    def go(ctx, rep):
        forms = dict(DEEP)
        forms['#undef'] = imm(ctx, UNDEF)
        forms['<undef'] = a8(ctx, UNDEF)
        partners = ([], [('int', 1)], [reg('X')], [reg('A'), ('int', 1), ('int', 2)], [imm(ctx, ('int', 1))], [('int', 1), reg('X')], [('str', 'ab')])
        for nm, f in forms.items():
            if f[0] == 'op' and f[1] == 'LOR':
                f = ('op', ctx.d.enums['LOR']) + f[2:]
            elif f[0] == 'op':
                f = ('op', ord(f[1])) + f[2:]
            for par in partners:
                for pos in range(len(par) + 1):
                    args = par[:pos] + [f] + par[pos:]
                    ps = asm(ctx, [(('id', ['lab']) if m in LABELLED else None, m, args)] + ([(None, 'endif', None)] if m == 'if' else []), isa=isa)
                    one(ctx, rep, m, ('x',) * pos + (nm,) + ('x',) * (len(par) - pos), ps, False)
    return go


def extra(m, ok, n, isa):
    """more operands than the line can use, after usable ones"""
    def go(ctx, rep):
        ctx.M.files = {b'ab': list(b' nop\n')}

        def legal(k):
            return next((c for c in itertools.product(KINDS, repeat=k) if ok(c) is True), None)
        base = max((c for c in (legal(k) for k in range(n + 1)) if c is not None), key=len, default=('int',))
        for more in (1, 2, 3):
            for last in KINDS if more == 1 else ('int', 'str', 'reg'):
                c = base + (last if more > 1 else 'int',) * (more - 1) + (last,)
                if len(c) <= n:
                    continue
                args = [alignspec(ctx, k, j) if m == 'align' else spec(ctx, k, j, 0, 2) for j, k in enumerate(c)]
                want = ok(c)
                if m in ('include', 'includebin') and want is None:
                    continue
                ps = asm(ctx, [(('id', ['lab']) if m in LABELLED else None, m, args)] + ([(None, 'endif', None)] if m == 'if' else []), isa=isa)
                one(ctx, rep, m, c, ps, want)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'assemble_init', 'opcode_init')
    out = []
    for m, (ok, n) in DIRECTIVES.items():
        for k in range(n + 1):
            if k == 3 and m not in ('fill', 'align') and tier == 'quick':
                continue
            for first in (KINDS if k == 3 else (None,)):
                out.append(('%s with %d operands%s' % (m, k, ' (%s first)' % first if first else ''), subject(m, k, ok, 1, first)))
    for m, (ok, n) in DIRECTIVES.items():
        if m != 'include':
            out.append(('%s with extra operands' % m, extra(m, ok, 2, 1)))
    for isa in (0, 1):
        for m in sorted(INSTR[isa]):
            if not (isa == 1 and m in INSTR[0] and INSTR[0][m] == INSTR[1][m]) and set(INSTR[isa][m]) != {'bit'}:
                ok, n = shape(isa, m)
                out.append(('%s %s with extra operands' % (('6809', '6309')[isa], m), extra(m, ok, n, isa)))
    for m in DIRECTIVES:
        if m not in ('if', 'export', 'unknownop'):
            out.append(('%s with an undefined symbol within an operand' % m, deep(1, m)))
    for m in sorted(INSTR[1]):
        out.append(('%s with an undefined symbol within an operand' % m, deep(1, m)))
    for isa in (0, 1):
        for m in sorted(INSTR[isa]):
            if isa == 1 and m in INSTR[0] and INSTR[0][m] == INSTR[1][m] and tier == 'quick':
                continue
            if set(INSTR[isa][m]) == {'bit'}:
                out.append(('6309 %s' % m, bitop(m)))
                continue
            ok, n = shape(isa, m)
            if ok is None:
                raise AssertionError(m)
            for k in range(n + 1):
                if k == 3:
                    for first in KINDS:
                        out.append(('%s %s with 3 operands (%s first)' % (('6809', '6309')[isa], m, first), subject(m, 3, ok, isa, first)))
                else:
                    out.append(('%s %s with %d operands' % (('6809', '6309')[isa], m, k), subject(m, k, ok, isa)))
    return out
