"""Abstract interpretation of main with assemble_prog's argument replaced per pass.
(a) Two passes over sources that differ in one quantity - the value of a symbol (integer, floating
point, string, register), the address of a label or local label, the END address, the end of a section
(location counter or load address) - with both values abstract: the run may succeed exactly on the
partitions where they are equal; likewise for symbols, local labels and sections that appear or vanish.
(b) assemble_prog replaced by arbitrary sets of diagnostics per pass: the number of passes made and the
outcome are those of the rule, for each pass limit.  (c) The severity recorded for any sequence of three
diagnostics is a function of their set."""
import itertools
from common import *
from machine import PUSHED
from c09 import take, args, OUTS, SRC, obs as outcome
RULE = 'subject = (kind of definition, first and second pass) | (diagnostics per pass, pass limit) | (triple of severities)'
TECHNIQUE = 'abstract interpretation of main, relating two passes with different abstract values'


def run_passes(ctx, progs, limit=None, opts=()):
    """main, where pass k assembles progs[k] (lines)"""
    M = ctx.M
    ctx.need('assemble_prog', 'main')

    def hook(M, st, a):
        if any(f.fn.name == 'assemble_prog' for f in st.frames):
            M.calls.add('assemble_prog')
            M.push(st, 'assemble_prog', list(a), None)
            return PUSHED
        if type(a[1]) is not int:
            raise Gap('symbolic pass number')
        st.emit('pass', a[1])
        st2, p = ctx.prog(st, progs[min(a[1], len(progs) - 1)])
        take(st, st2)
        M.calls.add('assemble_prog')
        M.push(st, 'assemble_prog', [p, a[1]], None)
        return PUSHED
    M.hooks['assemble_prog'] = hook
    try:
        return run_main(ctx, list(opts) + (['-P', str(limit)] if limit else []) + ['in.s'], {'in.s': ' nop\n'})
    finally:
        del M.hooks['assemble_prog']


def obs(p):
    c = exit_code(p)
    if type(c) is not int:
        raise Gap('exit status')
    return {'status': 'success' if c == 0 else 'failure', 'passes': sum(1 for e in p.st.events() if e[0] == 'pass')}


def lab(n):
    return ('id', [n])


BYTE = (None, 'fcb', [('int', 1)])
NEQ = 1 << 66


def two(mk, kind, lo=0, hi=0x8000):
    """mk(value) -> lines; kinds of value"""
    def go(ctx, rep):
        if kind == 'int':
            v, w = v64('v', lo, hi), v64('w', lo, hi)
            d = lform(0, (v, 1), (w, -1))
            cases = [Case('unchanged', [lin(d, 0, 0)], status='success'), Case('lower', [lin(d, 1, NEQ)], status='failure'), Case('higher', [lin(d, -NEQ, -1)], status='failure')]
            v, w = ('int', v), ('int', w)
        elif kind == 'float':
            x, y = fin('x'), fin('y')
            cases = [Case('unchanged', [fcond('oeq', x, y, True)], status='success'), Case('changed', [fcond('oeq', x, y, False)], status='failure')]
            v, w = ('float', x), ('float', y)
        elif kind == 'same':
            v = w = ('int', v64('v', lo, hi))
            cases = [Case('unchanged', [], status='success')]
        else:
            v, w, eq = kind
            cases = [Case('unchanged' if eq else 'changed', [], status='success' if eq else 'failure')]
        ps = run_passes(ctx, [mk(v) + [BYTE], mk(w) + [BYTE]], 2)
        compare(ctx, rep, ps, cases, obs, seed=ctx.seed)
    return go


def late(mk, k, steady):
    """a run of k passes, the limit, none settled before the last but one; the quantity has abstract values in the
    last two.  steady: it does not change in earlier passes (something else does)"""
    def go(ctx, rep):
        v, w = v64('v', 0, 0x8000), v64('w', 0, 0x8000)
        d = lform(0, (v, 1), (w, -1))

        def prog(x, j):
            return [(lab('other'), 'equ', [('int', min(j, k - 2))])] + mk(('int', x)) + [BYTE]
        progs = [prog(v if steady else j * 257 + 3, j) for j in range(k - 2)] + [prog(v, k - 2), prog(w, k - 1)]
        ps = run_passes(ctx, progs, k)
        compare(ctx, rep, ps, [Case('unchanged', [lin(d, 0, 0)], status='success', passes=k), Case('lower', [lin(d, 1, NEQ)], status='failure', passes=k), Case('higher', [lin(d, -NEQ, -1)], status='failure', passes=k)], obs, seed=ctx.seed)
    return go


def pair(a, b, want):
    def go(ctx, rep):
        ps = run_passes(ctx, [x(ctx) if callable(x) else x for x in (a, b)], 2)
        compare(ctx, rep, ps, [Case('two passes', [], status=want)], obs, seed=ctx.seed)
    return go


def at(v, *lines):
    """lines assembled at address v, then back to 0"""
    return [(None, 'org', [v])] + list(lines) + [(None, 'org', [('int', 0)])]


DEFS = {
    'EQU': lambda v: [(lab('foo'), 'equ', [v])],
    'label': lambda v: at(v, (lab('foo'), None, None)),
    'label on an instruction': lambda v: at(v, (lab('foo'), 'nop', None)),
    'label on RMB': lambda v: at(v, (lab('foo'), 'rmb', [('int', 1)])),
    'local label': lambda v: at(v, (('int', 1), None, None)),
    'END address': lambda v: [(None, 'end', [v])],
    'label of ORG': lambda v: [(lab('foo'), 'org', [v]), (None, 'org', [('int', 0)])],
    'end of section': lambda v: [(None, 'rmb', [v])],
    'end of another section': lambda v: [(None, 'section', [('str', 'other')]), (None, 'org', [('int', 0x100)]), (None, 'rmb', [v]), (None, 'section', [('str', 'CODE')])],
    'location of section end': lambda v: [(None, 'org', [v]), (None, 'put', [('int', 0)])],
    'load address of section end': lambda v: [(None, 'put', [v])],
    'second of two symbols': lambda v: [(lab('a'), 'equ', [('int', 1)]), (lab('foo'), 'equ', [v]), (lab('b'), 'equ', [('int', 2)])],
    'symbol through another': lambda v: [(lab('a'), 'equ', [v]), (lab('foo'), 'equ', [('op', ord('+'), lab('a'), ('int', 3))])],
}


def decision(seq, limit, opts=()):
    """seq: tuple of sets of levels, last one repeats"""
    def go(ctx, rep):
        M = ctx.M

        def hook(M, st, a):
            if type(a[1]) is not int:
                raise Gap('symbolic pass number')
            st.emit('pass', a[1])
            for l in seq[min(a[1], len(seq) - 1)]:
                if l:
                    m = M.cstr(st, b'problem')
                    st2, _ = M.call1(st, 'error', [l, m])
                    take(st, st2)
            return 0
        M.hooks['assemble_prog'] = hook
        try:
            ps = run_main(ctx, args([], *opts, *(['-P', str(limit)] if limit else [])), {'in.s': SRC})
        finally:
            del M.hooks['assemble_prog']
        E = errs(ctx)
        inc, syn, ill = E['error_type_inconsistent'], E['error_type_syntax'], E['error_type_illegal']
        n = 0
        while True:
            s = seq[min(n, len(seq) - 1)]
            n += 1
            again = inc in s and max(s) < syn
            if not again or n == (limit or 12):
                break
        want = 'success' if max(s, default=0) <= ill else 'failure'
        compare(ctx, rep, ps, [Case('rule', [], status=want, passes=n)], obs, seed=ctx.seed)
    return go


def severities(a):
    def go(ctx, rep):
        E = errs(ctx)
        inc, syn = E['error_type_inconsistent'], E['error_type_syntax']
        st0, m = ctx.cstr(ctx.start(), 'problem')
        for b in range(8):
            for c in range(8):
                st = st0
                for l in (a, b, c):
                    if l:
                        st = ctx.call(st, 'error', l, m)[0]
                s = {a, b, c}
                want = max(s) if max(s) >= syn or inc not in s else inc
                got = ctx.errlevel(st)
                if got == want:
                    rep.ok()
                else:
                    rep.violation('error()', 'severity after diagnostics %d,%d,%d is %s, expected %d' % (a, b, c, show_(got), want))
    return go


def show_(v):
    return str(v)


def obligations(ctx, tier):
    ctx.need('main', 'error', 'assemble_prog')
    out = []
    for n, mk in DEFS.items():
        full = n in ('EQU', 'symbol through another', 'END address', 'second of two symbols')
        lo, hi = (MIN64, MAX64) if full else (0, 0x8000)
        out.append(('%s with an integer in two passes' % n, two(mk, 'int', lo, hi)))
        out.append(('%s unchanged' % n, two(mk, 'same', lo, hi)))
        for k in (3, 4, 5, 6, 7, 9, 12, 13, 17, 33) if full else (3, 5, 7, 13):
            for steady in (False, True):
                out.append(('%s in the last two of %d passes%s' % (n, k, ', unchanged before' if steady else ''), late(mk, k, steady)))
    for n in ('EQU', 'second of two symbols'):
        mk = DEFS[n]
        out.append(('%s with a floating point number in two passes' % n, two(mk, 'float')))
        V = {'int': ('int', 97), 'float': ('float', 97.0), 'str': ('str', 'a'), 'str2': ('str', 'b'), 'str3': ('str', 'ab'), 'X': reg('X'), 'Y': reg('Y'), 'list': ('arr', [('int', 97)]), 'list2': ('arr', [('int', 98)]), 'list3': ('arr', [('int', 97), ('int', 1)])}
        for a in V:
            for b in V:
                if a == b and a.startswith('list'):
                    continue    # a list is never taken to be unchanged
                out.append(('%s: %s then %s' % (n, a, b), two(mk, (V[a], V[b], a == b))))
    foo = [(lab('foo'), 'equ', [('int', 1)])]
    loc = [(('int', 1), None, None)]
    nop = [(None, 'opt', None)]
    other = [(None, 'section', [('str', 'other')]), BYTE]
    code = [(None, 'section', [('str', 'CODE')])]
    use = [(None, 'fdb', [lab('foo')])]
    fwd = [(None, 'fdb', [('fwd', 1)])]
    back = [(None, 'fdb', [('back', 1)])]
    S = [
        ('symbol used before its definition settles', use + foo, use + foo, 'success'),
        ('symbol still undefined', use, use, 'failure'),
        ('symbol undefined then defined', use + [BYTE], use + foo + [BYTE], 'failure'),
        ('symbol first defined in the second pass', [BYTE], foo + [BYTE], 'failure'),
        ('SET first used in the second pass', [BYTE], [(lab('foo'), 'set', [('int', 1)]), BYTE], 'success'),
        ('forward local label settles', fwd + loc, fwd + loc, 'success'),
        ('forward local label missing', fwd, fwd, 'failure'),
        ('back local label missing', back, back, 'failure'),
        ('local label first defined in the second pass', nop + [BYTE], loc + [BYTE], 'failure'),
        ('local label gone in the second pass', loc + [BYTE], nop + [BYTE], 'failure'),
        ('local label moved to another line', loc + nop + [BYTE], nop + loc + [BYTE], 'failure'),
        ('section first used in the second pass', [BYTE], [BYTE] + other + code, 'failure'),
        ('section with data gone in the second pass', [BYTE] + other + code, [BYTE], 'failure'),
        ('local label of a section gone in the second pass', [BYTE] + [(None, 'section', [('str', 'other')])] + loc + code, [BYTE], 'failure'),
        ('END first seen in the second pass', [BYTE], [BYTE, (None, 'end', [('int', 5)])], 'failure'),
    ]
    for n, a, b, w in S:
        out.append((n, pair(a, b, w)))
    v = v64('v')
    out.append(('SET changing between passes', pair([(lab('foo'), 'set', [('int', v)]), BYTE], [(lab('foo'), 'set', [('int', v64('w'))]), BYTE], 'success')))
    out.append(('SET changing within a pass', pair([(lab('foo'), 'set', [('int', v)]), (lab('foo'), 'set', [('int', 3)]), BYTE], [(lab('foo'), 'set', [('int', v)]), (lab('foo'), 'set', [('int', 3)]), BYTE], 'success')))
    sets = [s for k in range(3) for s in itertools.permutations(range(1, 8), k)]
    for limit in (None, 2, 3, 255):
        for s in (sets if limit in (None, 3) else [(), (3,), (3, 4), (4, 3), (3, 5)]):
            if limit == 255 and s not in ((), (4,)):
                continue
            out.append(('diagnostics %s in every pass, limit %s' % (s, limit), decision((s,), limit)))
            if limit == 3:
                out.append(('diagnostics %s after an inconsistent pass' % (s,), decision(((3,), s), limit)))
                out.append(('diagnostics %s after two inconsistent passes' % (s,), decision(((3, 4), (3,), s), limit)))
    out.append(('settles in the twelfth pass', decision(tuple([(3,)] * 11 + [()]), None)))
    out.append(('would settle in the thirteenth pass', decision(tuple([(3,)] * 12 + [()]), None)))
    for a in range(8):
        out.append(('severity of sequences starting with %d' % a, severities(a)))
    return out
