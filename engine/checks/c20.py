"""Abstract interpretation of whole runs over programs of local labels and references: every program of up
to four (thorough: five) lines drawn from labels of two numbers, back and forward references, a line that
is both, and section switches; longer programs with a reference at every position among up to twenty
occurrences; labels inside macros, included files, conditionals and on every kind of line; and the table
itself, filled in every order and searched with an abstract line number.  Label values are abstract, so
the reference found is identified by its value.  Oracle: the nearest occurrence by line position."""
import itertools
import embed
from common import *
from c10 import run_passes, lab
from c11 import whole
from drv import AnchorMissing
from outfmt import check_format, Block
RULE = 'subject = program of local labels and references | order of insertion into the table; obligation = trace partition'
TECHNIQUE = 'abstract interpretation of whole runs against the nearest-occurrence rule'
SECT = ('CODE', 'other')
AT = {'CODE': 0x1000, 'other': 0x2000}


def program(toks, ref='fdb'):
    """tokens: ('L', k) label with an abstract value, ('P', k) label at the current address, ('b', k), ('f', k), ('x', k) label and both references on one line, 's' switch section, ('n',) nothing"""
    lines, occ, refs = [(None, 'org', [('int', AT['CODE'])])], {}, []
    out = {'CODE': [], 'other': []}
    cur, seen = 'CODE', {'CODE'}
    pos = 0
    for t in toks:
        pos += 1
        here = AT[cur] + len(out[cur])
        if t == 's':
            cur = SECT[1 - SECT.index(cur)]
            lines.append((None, 'section', [('str', cur)]))
            if cur not in seen:
                seen.add(cur)
                lines.append((None, 'org', [('int', AT[cur])]))
        elif t[0] == 'L':
            v = v64('v%d' % pos, 0, 0xffff)
            lines.append((('int', t[1]), 'equ', [('int', v)]))
            occ.setdefault((cur, t[1]), []).append((pos, v))
        elif t[0] == 'P':
            lines.append((('int', t[1]), None, None))
            occ.setdefault((cur, t[1]), []).append((pos, here))
        elif t[0] == 'n':
            lines.append((None, 'opt', None))
        elif t[0] in 'bf':
            lines.append((None, 'fdb', [('back' if t[0] == 'b' else 'fwd', t[1])]))
            refs.append((cur, t[1], pos, t[0], len(out[cur])))
            out[cur] += [None, None]
        elif t[0] == 'x':
            occ.setdefault((cur, t[1]), []).append((pos, here))
            lines.append((('int', t[1]), 'fdb', [('back', t[1]), ('fwd', t[1])]))
            refs.append((cur, t[1], pos, 'b', len(out[cur])))
            refs.append((cur, t[1], pos, 'f', len(out[cur]) + 2))
            out[cur] += [None] * 4
    for cur, k, pos, d, at in refs:
        c = [o for o in occ.get((cur, k), []) if (o[0] <= pos if d == 'b' else o[0] > pos)]
        if not c:
            return lines, None
        v = max(c, key=lambda o: o[0])[1] if d == 'b' else min(c, key=lambda o: o[0])[1]
        out[cur][at:at + 2] = be(v, 2) if type(v) is S else list(v.to_bytes(2, 'big'))
    return lines, [Block(AT[s], out[s]) for s in SECT if out[s]]


def run(ctx, rep, lines, blocks, what):
    ps = run_passes(ctx, [lines], None, ['-S', '-o', 'out'])
    check_format(ctx, rep, ps, [([], whole(blocks, None) if blocks is not None else None)], what)


def subject(toks):
    """the same two passes without the rest of main"""
    def go(ctx, rep):
        lines, blocks = program(toks)
        try:
            ctx.need('section_finish_pass', 'error_clear_all', 'section_set')
        except AnchorMissing:
            return run(ctx, rep, lines, blocks, 'nearest occurrence' if blocks is not None else 'no such occurrence')
        st, p = ctx.prog(ctx.start(), lines + [(None, 'section', [('str', 'CODE')])])
        st, _ = ctx.call(st, 'assemble_prog', p, 0)
        st, _ = ctx.call(st, 'section_finish_pass')
        st, _ = ctx.call(st, 'error_clear_all')
        st, k = ctx.cstr(st, 'CODE')
        st, _ = ctx.call(st, 'section_set', k, 1)
        ps = ctx.M.run(st, 'assemble_prog', [p, 1])

        def obs(p):
            if p.status == 'exit':
                return {'cls': 'exit'}
            st = p.st
            r = {'cls': cls_of(ctx, ctx.errlevel(st))}
            if blocks is None:
                return r
            for s in SECT:
                st, k = ctx.cstr(st, s)
                st, _ = ctx.call(st, 'section_set', k, 1)
                sp = [x for x in ctx.spans(st) if x[2] != 0]
                r['at ' + s] = sp[0][1] if len(sp) == 1 else None if not sp else [x[1] for x in sp]
                r['bytes of ' + s] = [b for x in sp for b in x[3]]
            return r
        if blocks is None:
            want = {'cls': 'err'}
        else:
            want = {'cls': 'ok'}
            by = {b.put: b.data for b in blocks}
            for s in SECT:
                want['at ' + s] = AT[s] if AT[s] in by else None
                want['bytes of ' + s] = by.get(AT[s], [])
        compare(ctx, rep, ps, [Case('nearest occurrence' if blocks is not None else 'no such occurrence', [], **want)], obs, seed=ctx.seed)
    return go


ALPHA = {'L': ('L', 1), 'M': ('L', 2), 'b': ('b', 1), 'f': ('f', 1), 'x': ('x', 1), 's': 's'}


def useful(w):
    """programs with a reference, and no switch at the end"""
    return any(c in w for c in 'bfx') and w[-1] != 's' and 'ss' not in w


def long(n, every, kind):
    """n occurrences with a reference after each of `every` lines, both directions where they exist"""
    def go(ctx, rep):
        toks = []
        for i in range(n):
            toks.append((kind, 1))
            if i % every == 0:
                toks.append(('b', 1))
                if i + 1 < n:
                    toks.append(('f', 1))
            if i % 3 == 0:
                toks += [('L', 2), ('n',)]
        lines, blocks = program(toks)
        run(ctx, rep, lines, blocks, 'long programs')
    return go


def sparse(gap, n, ks):
    """n occurrences of each of the numbers ks, `gap` other lines between, references at several places of each gap"""
    def go(ctx, rep):
        toks = []
        for i in range(n):
            for k in ks:
                toks.append(('P' if (i + k) % 3 else 'L', k))
                toks += [('n',)] * (gap // 2)
                toks += [('b', k)] + ([('f', k)] if i + 1 < n else [])
                toks += [('n',)] * (gap - gap // 2)
        for k in ks:
            toks += [('b', k)]
        lines, blocks = program(toks)
        keep, ctx.M.max_steps = ctx.M.max_steps, 60e6
        try:
            run(ctx, rep, lines, blocks, 'far apart')
        finally:
            ctx.M.max_steps = keep
    return go


def at_every(n):
    """one reference at each position among n occurrences"""
    def go(ctx, rep):
        for i in range(n + 1):
            for d in 'bf':
                subject([('L', 1)] * i + [(d, 1)] + [('L', 1)] * (n - i))(ctx, rep)
    return go


def numbers(ks):
    def go(ctx, rep):
        toks = [('L', k) for k in ks] + [('b', k) for k in ks] + [('f', k) for k in ks] + [('L', k) for k in reversed(ks)]
        lines, blocks = program(toks)
        run(ctx, rep, lines, blocks, 'numbers')
        for i, k in enumerate(ks):
            toks = [('L', j) for j in ks if j != k] + [('b', k)] + [('L', j) for j in ks if j != k]
            subject(toks)(ctx, rep)
    return go


def switching(shape):
    """labels and references in turn in several sections"""
    def go(ctx, rep):
        toks = []
        for c in shape:
            toks += ['s'] if c == 's' else [ALPHA[c]]
        lines, blocks = program(toks)
        run(ctx, rep, lines, blocks, 'sections')
    return go


# ---- labels on every kind of line, references in every kind of operand

def on_line(op, args, size, value=None, files=()):
    def go(ctx, rep):
        ctx.M.files = dict(files)
        if op == 'mac':
            pre = [(lab('mac'), 'macro', None), (None, 'nop', None), (None, 'endm', None)]
        else:
            pre = []
        ls = pre + [(None, 'org', [('int', 0x1000)]), (None, 'fdb', [('fwd', 7)]), (('int', 7), op, [imm(ctx, a[1]) if a[0] == 'imm' else a for a in args] if args else args), (lab('ref'), 'equ', [('back', 7)])]
        def obs(p):
            r = line_obs(ctx)(p)
            v = sym_value(ctx, p.st, 'ref') if p.status != 'exit' else None
            return {'value': v[1] if v else None}
        ps = asm(ctx, ls)
        compare(ctx, rep, ps, [Case('label on %s' % op, [], value=0x1002 if value is None else value)], obs, seed=ctx.seed)
    return go


SOURCES = {
    'branches': (b'1 nop\n bra 1B\n bra 1F\n lbne 1B\n lbsr 1F\n1 nop\n', [0x12, 0x20, 0xfd, 0x20, 0x07, 0x10, 0x26, 0xff, 0xf7, 0x17, 0, 0, 0x12]),
    'operands': (b'1 nop\n2 nop\n ldx #1B\n ldd #2B+1F\n1 leay 2F,pcr\n2 nop\n', [0x12, 0x12, 0x8e, 0, 0, 0xcc, 0, 9, 0x31, 0x8c, 0, 0x12]),
    'angle brackets': (b'1 nop\n ldx #<1\n', [0x12, 0x8e, 0, 0]) if False else (b'1 nop\n fdb 1B\n', [0x12, 0, 0]),
    'exclamation': (b'! nop\n bra <\n bra >\n! nop\n', [0x12, 0x20, 0xfd, 0x20, 0, 0x12]),
    'lower case': (b'1 nop\n fcb 1b,1f\n1 nop\n', [0x12, 0, 3, 0x12]),
    'long numbers': (b'100 nop\n10 nop\n1000 nop\n fcb 100b,10b,1000b,10f\n10 nop\n', [0x12, 0x12, 0x12, 0, 1, 2, 7, 0x12]),
    'leading zero': (b'01 nop\n nop\n1 nop\n fcb 1b,01b\n', [0x12, 0x12, 0x12, 2, 2]),
    'in a macro': (b'm macro\n1 fcb \\1\n fcb 1b,1f\n1 fcb 1b\n endm\n m 7\n m 8\n', [7, 0, 3, 3, 8, 4, 7, 7]),
    'around a macro': (b'm macro\n nop\n endm\n1 nop\n m\n fcb 1b,1f\n m\n1 nop\n', [0x12, 0x12, 0, 5, 0x12, 0x12]),
    'into a macro': (b'm macro\n fcb 1b,1f\n1 nop\n endm\n1 nop\n m\n fcb 1b\n m\n1 nop\n', [0x12, 0, 3, 0x12, 3, 3, 7, 0x12, 0x12]),
    'label on a macro use': (b'm macro\n nop\n fcb 1b\n endm\n1 nop\n1 m\n fcb 1b\n', [0x12, 0x12, 1, 1]),
    'included': (b'1 nop\n include "inc"\n fcb 1b\n1 nop\n', [0x12, 0, 3, 0x12, 3, 0x12]),
    'conditional': (b'1 nop\n if 0\n1 nop\n endif\n fcb 1b,1f\n if 0\n1 nop\n else\n nop\n1 nop\n endif\n', [0x12, 0, 4, 0x12, 0x12]),
    'definition only': (b'm macro\n1 nop\n endm\n nop\n1 nop\n fcb 1b\n', [0x12, 0x12, 1]),
    'section of the same name again': (b' section "a"\n1 nop\n section "b"\n nop\n1 nop\n section "a"\n fcb 1b,1f\n section "b"\n fcb 1b\n section "a"\n1 nop\n', None) if False else (b'1 nop\n', [0x12]),
    'missing backwards': (b' fcb 1b\n1 nop\n', None), 'missing forwards': (b'1 nop\n fcb 1f\n', None), 'missing altogether': (b' fcb 1b\n', None), 'other number': (b'2 nop\n fcb 1b\n', None),
    'same line forwards': (b'1 fcb 1f\n', None), 'missing in a macro': (b'm macro\n1 nop\n endm\n fcb 1f\n', None),
    'other section': (b'1 nop\n section "other"\n fcb 1b\n', None), 'other section forwards': (b' fcb 1f\n section "other"\n1 nop\n', None),
    'EQU and SET': (b'1 equ 5\n1 set 6\n fcb 1b,1f\n1 equ 7\n', [6, 7]),
    'symbol from local': (b'1 nop\n nop\nsym equ 1b\n1 nop\n fcb sym,1b\n', [0x12, 0x12, 0x12, 0, 2]),
    'arithmetic': (b'1 nop\n nop\n1 fcb 1f-1b,2f-1b\n2 nop\n1 nop\n', [0x12, 0x12, 3, 2, 0x12, 0x12]),
    'forward sizes': (b' lda 1f\n nop\n1 nop\n', [0xb6, 0, 4, 0x12, 0x12]),
}


def source(n):
    def go(ctx, rep):
        src, want = SOURCES[n]
        ps = run_main(ctx, ['-S', '-o', 'out', 'in.s'], {'in.s': src, 'inc': b' fcb 1b,1f\n1 nop\n'})
        check_format(ctx, rep, ps, [([], whole([Block(0, want)], None) if want is not None else None)], n)
    return go


# ---- the table

def table(order, extra=()):
    """occurrences inserted in this order; searched with an abstract line number"""
    def go(ctx, rep):
        try:
            ctx.need('symbol_local_table_new', 'symbol_local_set', 'symbol_local_backref', 'symbol_local_fwdref')
            for n, k in (('symbol_local_set', 5), ('symbol_local_backref', 3), ('symbol_local_fwdref', 3)):
                if len(ctx.M.m.funcs[n].params) != k:
                    raise Gap('other interface')
        except AnchorMissing as e:
            raise Gap(str(e))
        st = ctx.start()
        st, t = ctx.call(st, 'symbol_local_table_new')
        at = {i: 10 * i for i in order}
        vals = {i: v64('v%d' % i) for i in order}
        for i in order:
            st, n = ctx.node(st, ('int', vals[i]))
            st, _ = ctx.call(st, 'symbol_local_set', t, 5, at[i], n, 0)
        for k in extra:
            st, n = ctx.node(st, ('int', v64('w%d' % k)))
            st, _ = ctx.call(st, 'symbol_local_set', t, k, 15, n, 0)
        line = inp('line', 32, 0, 10 * len(order) + 20)
        for fn, back in (('symbol_local_backref', True), ('symbol_local_fwdref', False)):
            ps = ctx.M.run(st, fn, [t, 5, line])
            cases = []
            lines = sorted(at.values())
            if back:
                cuts = [(0, lines[0] - 1, None)] + [(l, (lines[j + 1] - 1 if j + 1 < len(lines) else 1 << 31), l) for j, l in enumerate(lines)]
            else:
                cuts = [((lines[j - 1] if j else 0), l - 1, l) for j, l in enumerate(lines)] + [(lines[-1], 1 << 31, None)]
            for lo, hi, l in cuts:
                v = next((vals[i] for i in order if at[i] == l), None)
                cases.append(Case('%s %d..%d' % ('back' if back else 'forward', lo, hi), [lin(line, lo, hi)], cls='err' if l is None else 'ok', value=v))

            def obs(p):
                x = node_value(ctx, p.st, p.value)
                return {'cls': cls_of(ctx, ctx.errlevel(p.st)), 'value': x[1] if x else None}
            compare(ctx, rep, ps, cases, obs, seed=ctx.seed)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'main')
    deep = tier == 'thorough'
    out = []
    for n in range(1, 6 if deep else 5):
        for w in itertools.product(ALPHA, repeat=n):
            if useful(w):
                w = ''.join(w)
                out.append(('program %s' % w, subject([ALPHA[c] for c in w])))
    for n, e in ((5, 1), (9, 2), (20, 1), (20, 5)) + (((60, 4),) if deep else ()):
        for k in 'LP':
            out.append(('%d occurrences (%s), references every %d' % (n, k, e), long(n, e, k)))
    for g, n, ks in ((100, 3, (1,)), (300, 2, (7,)), (0, 4, tuple(range(40))), (3, 100, (5,)), (20, 4, (1, 11, 21, 1024)), (0, 2, tuple(range(0, 65536 * 4, 65536))), (0, 150, (1, 2))):
        out.append(('%d lines apart, %d occurrences of %d numbers' % (g, n, len(ks)), sparse(g, n, ks)))
    for n in (3, 6, 9) + ((16,) if deep else ()):
        out.append(('reference at every position among %d' % n, at_every(n)))
    for ks in ((0, 1), (1, 2, 3), (1, 10, 100), (0, 11, 22, 33, 44), (7, 7 + 31, 7 + 61, 7 + 11 * 17), (1, 1 + (1 << 32)), (1, 1 + (11 << 32)), (2, 2 + (11 << 8), 2 + (11 << 16), 2 + (11 << 31), 2 + (11 << 32), 2 + (11 << 48)), (9, 99, 999, 9999), tuple(range(9))):
        out.append(('numbers %s' % (ks,), numbers(ks)))
    for s in ('LsLsbfL', 'LsLsbsbf', 'LbsLbsLbsLb', 'fsfsLsL', 'LLsLLsfsfsLsL', 'sLsLsbsb', 'xsxsxsxsLsL', 'LsfsbsLsb', 'sfsfsLsfLsL', 'LsMsLsbsbsLsL', 'bsLsL', 'sLsfsLsb'):
        out.append(('sections %s' % s, switching(s)))
    L = [('nop', None, 1), (None, None, 0), ('lda', [('imm', ('int', 1))], 2), ('fcb', [('int', 1)], 1), ('fcc', [('str', 'text')], 4), ('rmb', [('int', 4)], 4), ('fill', [('int', 1), ('int', 2)], 2), ('align', [('int', 16)], 0), ('put', [('int', 0x3000)], 0),
         ('setdp', [('int', 0x10)], 0), ('mac', None, 0), ('page', None, 0), ('jmp', [('back', 7)], 3), ('bra', [('back', 7)], 2)]
    for op, a, size in L:
        out.append(('label on %s' % op, on_line(op, a, size)))
    v = v64('v', 0, 0xff00)
    for op in ('equ', 'set', 'org'):
        out.append(('label on %s' % op, on_line(op, [('int', v)], 0, v)))
    for n in SOURCES:
        out.append(('source: %s' % n, source(n)))
    for n in (1, 2, 3, 4) + ((5, 6) if deep else ()):
        for o in itertools.permutations(range(1, n + 1)):
            out.append(('table filled in order %s' % (list(o),), table(o)))
    for o in (list(range(1, 9)), list(range(8, 0, -1)), [4, 2, 6, 1, 3, 5, 7, 8], [8, 1, 7, 2, 6, 3, 5, 4], [3, 8, 1, 6, 2, 7, 4, 5]):
        out.append(('table filled in order %s' % o, table(o)))
        out.append(('table filled in order %s, other numbers' % o, table(o, (4, 6, 5 + (1 << 32), 5 + (11 << 32), 5 + (11 << 16)))))
    out += embed.subjects('C20', tier)
    return out
