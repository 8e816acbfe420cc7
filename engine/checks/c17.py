"""Abstract interpretation of assemble_prog over conditional structures: every IF / ELSIF / ELSE shape with
up to four conditions, every placement of one structure inside another, deeper chains and sequences, with
every condition an abstract integer (each truth assignment is a set of trace partitions).  Each branch
emits its own marker bytes; the bytes assembled must be those of the branches the documentation selects.
Then every kind of statement as the content of a branch (a skipped one has no effect and is not
diagnosed), undefined symbols in conditions, conditions known only in a later pass, and every shape of
unbalanced or repeated directive."""
import itertools
import embed
from common import *
from c10 import run_passes, lab
from outfmt import check_format
RULE = 'subject = conditional structure; obligation = (truth assignment, trace partition)'
FAR = 1 << 66


class B:
    """builds lines and the selection function of a structure"""

    def __init__(self):
        self.n = 0
        self.k = 0
        self.conds = []

    def mark(self):
        self.n += 1
        return ('m', self.n)

    def cond(self):
        v = v64('c%d' % len(self.conds))
        self.conds.append(v)
        return len(self.conds) - 1


def build(b, shape):
    """shape: list of items; item = 'm' | ('if', [body, ...], else body | None) -> tree with condition numbers"""
    out = []
    for s in shape:
        if s == 'm':
            out.append(b.mark())
        else:
            br = []
            for body in s[1]:
                c = b.cond()
                br.append((c, build(b, body)))
            out.append(('if', br, build(b, s[2]) if s[2] is not None else None))
    return out


def lines(b, t, case=lambda i, s: s):
    out = []
    for x in t:
        if x[0] == 'm':
            out.append((None, 'fcb', [('int', x[1])]))
        else:
            for i, (c, body) in enumerate(x[1]):
                out.append((None, case(i, 'elsif' if i else 'if'), [('int', b.conds[c])]))
                out += lines(b, body, case)
            if x[2] is not None:
                out.append((None, case(0, 'else'), None))
                out += lines(b, x[2], case)
            out.append((None, case(0, 'endif'), None))
    return out


def select(t, truth):
    """(bytes, conditions that matter)"""
    out, used = [], set()
    for x in t:
        if x[0] == 'm':
            out.append(x[1])
            continue
        for c, body in x[1]:
            used.add(c)
            if truth[c]:
                o, u = select(body, truth)
                out += o
                used |= u
                break
        else:
            if x[2] is not None:
                o, u = select(x[2], truth)
                out += o
                used |= u
    return out, used


def cases(b, t):
    seen = {}
    for truth in itertools.product((0, 1), repeat=len(b.conds)):
        o, used = select(t, truth)
        seen[tuple((c, truth[c]) for c in sorted(used))] = o
    out = []
    for key, o in seen.items():
        for signs in itertools.product((0, 1), repeat=sum(v for _, v in key)):
            g, it = [], iter(signs)
            for c, v in key:
                if not v:
                    g.append(lin(b.conds[c], 0, 0))
                elif next(it):
                    g.append(lin(b.conds[c], 1, FAR))
                else:
                    g.append(lin(b.conds[c], -FAR, -1))
            out.append((g, o))
    return out


def merge(cs):
    return cs


def structure(shape, what, case=lambda i, s: s):
    def go(ctx, rep):
        b = B()
        t = build(b, shape)
        ps = asm(ctx, lines(b, t, case))
        obs = line_obs(ctx)
        # each partition decides the conditions that matter; match it by its facts
        sel = cases(b, t)
        compare(ctx, rep, ps, [Case(what, g, cls='ok', bytes=o) for g, o in sel], obs, seed=ctx.seed)
    return go


def simple(n, els, body=('m',)):
    return ('if', [list(body) for _ in range(n)], list(body) if els else None)


SHAPES = [simple(n, e) for n in (1, 2) for e in (0, 1)]


def nested():
    """every placement of an inner structure in an outer one"""
    for n in (1, 2):
        for e in (0, 1):
            for pos in range(n + e):
                for inner in SHAPES:
                    for around in (0, 1, 2, 3):
                        body = (['m'] if around & 1 else []) + [inner] + (['m'] if around & 2 else [])
                        bodies = [body if i == pos else ['m'] for i in range(n)]
                        yield 'inner in branch %d' % pos, [('if', bodies, (body if pos == n else ['m']) if e else None), 'm']


# ---- content of a branch

def content():
    """name -> (lines before, lines of the branch, symbol it defines | None, bytes when assembled, bytes when skipped, class when assembled)"""
    nop = (None, 'nop', None)
    two = ('int', 2)
    R = {
        'label': ([], [(lab('foo'), None, None)], 'foo', [], 'ok'),
        'label and data': ([], [(lab('foo'), 'fcb', [two])], 'foo', [2], 'ok'),
        'EQU': ([], [(lab('foo'), 'equ', [two])], 'foo', [], 'ok'),
        'SET': ([], [(lab('foo'), 'set', [two])], 'foo', [], 'ok'),
        'second definition': ([(lab('bar'), 'equ', [two])], [(lab('bar'), 'equ', [('int', 3)])], None, [], 'err'),
        'instruction': ([], [nop], None, [0x12], 'ok'),
        'unknown instruction': ([], [(None, 'bogus', None)], None, [], 'err'),
        'wrong operand': ([], [(None, 'lda', [reg('X')])], None, None, 'err'),
        'undefined symbol': ([], [(None, 'fdb', [lab('nowhere')])], None, None, 'err'),
        'division by zero': ([], [(None, 'fcb', [('op', ord('/'), ('int', 1), ('int', 0))])], None, None, 'err'),
        'missing include': ([], [(None, 'include', [('str', 'nofile')])], None, [], 'err'),
        'missing binary': ([], [(None, 'includebin', [('str', 'nofile')])], None, [], 'err'),
        'include': ([], [(None, 'include', [('str', 'ab')])], None, [0x12], 'ok'),
        'binary': ([], [(None, 'includebin', [('str', 'ab')])], None, list(b' nop\n'), 'ok'),
        'macro definition': ([], [(lab('mac'), 'macro', None), nop, (None, 'endm', None)], None, [], 'ok'),
        'macro definition and use': ([], [(lab('mac'), 'macro', None), nop, (None, 'endm', None), (None, 'mac', None)], None, [0x12], 'ok'),
        'macro use': ([(lab('mac'), 'macro', None), nop, (None, 'endm', None)], [(None, 'mac', None)], None, [0x12], 'ok'),
        'conditional in a macro definition': ([], [(lab('mac'), 'macro', None), (None, 'if', [two]), nop, (None, 'endif', None), (None, 'endm', None)], None, [], 'ok'),
        'stray ENDM': ([], [(None, 'endm', None)], None, [], 'err'),
        'local label': ([], [(('int', 5), None, None)], None, [], 'ok'),
        'RMB of nothing': ([], [(None, 'rmb', [('int', 0)])], None, [], 'ok'),
        'bad count': ([], [(None, 'rmb', [('int', -1)])], None, [], 'err'),
        'bad address': ([], [(None, 'org', [('int', 0x20000)])], None, [], 'err'),
        'OPT': ([], [(None, 'opt', [two])], None, [], 'ok'),
    }
    return R


def branch(name, where):
    def go(ctx, rep):
        before, body, sym, bytes_, cls = content()[name]
        ctx.M.files = {b'ab': list(b' nop\n')}
        ctx.M.closed_world = True
        c = v64('c')
        I, E, L, EI = (lambda v: (None, 'if', [v])), (None, 'endif', None), (None, 'else', None), (lambda v: (None, 'elsif', [v]))
        cv = ('int', c)
        tail = [(None, 'fcb', [('int', 0xee)])]
        want = 1
        if where == 'if':
            ls = [I(cv)] + body + [E]
        elif where == 'else':
            ls, want = [I(cv), L] + body + [E], 0
        elif where == 'elsif':
            ls = [I(('int', 0)), EI(cv)] + body + [E]
        elif where == 'nested':
            ls = [I(cv), I(('int', 1))] + body + [E, E]
        elif where == 'after':
            # second true branch: never assembled
            ls, want = [I(cv), EI(('int', 0)), L, I(cv)] + body + [E, E], None
        try:
            ps = asm(ctx, before + ls + tail)
        finally:
            ctx.M.closed_world = False
        no = dict(cls='ok', bytes=[0xee], defined=False if sym else ANY)
        yes = dict(cls=cls, bytes=(bytes_ + [0xee]) if bytes_ is not None and cls == 'ok' else ANY, defined=True if sym else ANY)
        z = [Case('skipped' if want != 0 else 'assembled', [lin(c, 0, 0)], **(no if want != 0 else yes))]
        nz = [Case('assembled' if want == 1 else 'skipped', [lin(c, *r)], **(yes if want == 1 else no)) for r in ((1, FAR), (-FAR, -1))]
        base = line_obs(ctx)

        def obs(p):
            o = dict(base(p))
            o['defined'] = sym_value(ctx, p.st, sym or 'foo') is not None if p.status != 'exit' else None
            return o
        compare(ctx, rep, ps, z + nz, obs, seed=ctx.seed)
    return go


def moving(name):
    """skipped placing statements do not move anything"""
    def go(ctx, rep):
        c, v = v64('c'), v64('v', 0, 0x7000)
        ins = {'org': [(None, 'org', [('int', v)])], 'put': [(None, 'put', [('int', v)])], 'rmb': [(None, 'rmb', [('int', v)])],
               'section': [(None, 'section', [('str', 'other')]), (None, 'org', [('int', v)])], 'setdp': [(None, 'setdp', [('int', 0x12)])]}[name]
        ps = asm(ctx, [(None, 'org', [('int', 0x100)]), (None, 'if', [('int', c)])] + ins + [(None, 'endif', None), (None, 'jmp', [('int', 0x1234)]), (None, 'fdb', [('pc',)])])
        s = Case('skipped', [lin(c, 0, 0)], cls='ok', org=0x100, put=0x100, bytes=[0x7e, 0x12, 0x34, 0x01, 0x03])
        o = {'org': (v, v), 'put': (0x100, v), 'rmb': (mk(64, v.c + 0x100, dict(v.t)),) * 2, 'section': (v, v), 'setdp': (0x100, 0x100)}[name]
        W = lambda x: ('w', 32, mk(32, x.c, dict(x.t))) if type(x) is S else x
        a = [Case('assembled', [lin(c, *r)], cls='ok', org=W(o[0]), put=W(o[1])) for r in ((1, FAR), (-FAR, -1))]
        compare(ctx, rep, ps, [s] + a, line_obs(ctx), seed=ctx.seed)
    return go


UNDEF = lab('nowhere')
EXPR = [
    ('undefined', UNDEF, 0), ('undefined + 1', ('op', ord('+'), UNDEF, ('int', 1)), 1), ('not undefined', ('op', ord('!'), UNDEF), 1),
    ('undefined == 0', ('op', 'EQ', UNDEF, ('int', 0)), 1), ('undefined * 5', ('op', ord('*'), UNDEF, ('int', 5)), 0), ('undefined || 1', ('op', 'LOR', UNDEF, ('int', 1)), 1), ('undefined && 1', ('op', 'LAND', UNDEF, ('int', 1)), 0),
]


def enums(ctx, e):
    if type(e) is tuple and e and e[0] == 'op':
        return ('op', ctx.d.enums[e[1]] if type(e[1]) is str else e[1]) + tuple(enums(ctx, x) for x in e[2:])
    return e


def undefined(name, e, truth, where):
    def go(ctx, rep):
        x = enums(ctx, e)
        m = lambda k: (None, 'fcb', [('int', k)])
        if where == 'if':
            ls = [(None, 'if', [x]), m(1), (None, 'else', None), m(2), (None, 'endif', None)]
        else:
            ls = [(None, 'if', [('int', 0)]), m(3), (None, 'elsif', [x]), m(1), (None, 'else', None), m(2), (None, 'endif', None)]
        for n in (1, 2, 5, 11):
            compare(ctx, rep, asm(ctx, ls, pass_=n), [Case('undefined symbol in condition, pass %d' % n, [], cls='ok', bytes=[1 if truth else 2])], line_obs(ctx), seed=ctx.seed)
        # and only there
        for w in (('int', 0), ('int', 1), x):
            ps = asm(ctx, ls[:0] + [(None, 'if', [x]), (None, 'elsif', [w]), (None, 'endif', None), (None, 'fdb', [UNDEF])])
            compare(ctx, rep, ps, [Case('undefined symbol after a condition', [], cls='err')], line_obs(ctx), seed=ctx.seed)
    return go


def defined_symbol():
    def go(ctx, rep):
        v = v64('v')
        m = lambda k: (None, 'fcb', [('int', k)])
        for kind in ('equ', 'set'):
            ps = asm(ctx, [(lab('foo'), kind, [('int', v)]), (None, 'if', [lab('foo')]), m(1), (None, 'else', None), m(2), (None, 'endif', None)])
            compare(ctx, rep, ps, [Case('false', [lin(v, 0, 0)], cls='ok', bytes=[2]), Case('true', [lin(v, 1, FAR)], cls='ok', bytes=[1]), Case('true', [lin(v, -FAR, -1)], cls='ok', bytes=[1])], line_obs(ctx), seed=ctx.seed)
    return go


def later():
    """a symbol defined after the condition: its value counts from the next pass on"""
    def go(ctx, rep):
        from c11 import srec, s9, whole
        from outfmt import Block
        v = v64('v')
        m = lambda k: (None, 'fcb', [('int', k)])
        prog = [(None, 'if', [lab('foo')]), m(1), (None, 'else', None), m(2), (None, 'endif', None), (lab('foo'), 'equ', [('int', v)])]
        ps = run_passes(ctx, [prog], None, ['-S', '-o', 'out'])
        W = lambda k: whole([Block(0, [k])], None)
        check_format(ctx, rep, ps, [([lin(v, 0, 0)], W(2)), ([lin(v, 1, FAR)], W(1)), ([lin(v, -FAR, -1)], W(1))], 'condition settling in a later pass')
    return go


def macros():
    """conditionals inside an expanded macro depend on its arguments"""
    def go(ctx, rep):
        a, b = v64('a'), v64('b')
        m = lambda k: (None, 'fcb', [('int', k)])
        body = [(lab('mac'), 'macro', None), (None, 'if', [('interp', '1')]), m(1), (None, 'elsif', [('interp', '2')]), m(2), (None, 'else', None), m(3), (None, 'endif', None), (None, 'endm', None)]
        ps = asm(ctx, body + [(None, 'mac', [('int', a), ('int', b)]), m(9), (None, 'mac', [('int', b), ('int', a)])])
        cs = []
        N = {0: [(0, 0)], 1: [(1, FAR), (-FAR, -1)]}
        for x in (0, 1):
            for y in (0, 1):
                for r in N[x]:
                    for q in N[y]:
                        f = 1 if x else 2 if y else 3
                        g = 1 if y else 2 if x else 3
                        cs.append(Case('conditional in a macro', [lin(a, *r), lin(b, *q)], cls='ok', bytes=[f, 9, g]))
        compare(ctx, rep, ps, cs, line_obs(ctx), seed=ctx.seed)
    return go


def unbalanced(seq, ok):
    def go(ctx, rep):
        c = iter([v64('c%d' % i) for i in range(len(seq))])
        ls = []
        for s in seq:
            ls.append((None, 'fcb', [('int', 1)]) if s == 'm' else (None, s, [('int', next(c))] if s in ('if', 'elsif') else None))
        compare(ctx, rep, asm(ctx, ls), [Case('balanced' if ok else 'unbalanced', [], cls='ok' if ok else 'err')], line_obs(ctx), seed=ctx.seed)
    return go


def balanced(seq):
    st = []
    for s in seq:
        if s == 'if':
            st.append('if')
        elif s in ('elsif', 'else'):
            if not st or st[-1] == 'else':
                return False
            if s == 'else':
                st[-1] = 'else'
        elif s == 'endif':
            if not st:
                return False
            st.pop()
    return not st


def files(what):
    """a structure has to end in the file or macro it began in"""
    def go(ctx, rep):
        c = v64('c')
        m = lambda k: (None, 'fcb', [('int', k)])
        I, E = (None, 'if', [('int', c)]), (None, 'endif', None)
        inc = (None, 'include', [('str', 'part')])
        mac = lambda *b: [(lab('mac'), 'macro', None)] + list(b) + [(None, 'endm', None)]
        use = (None, 'mac', None)
        ctx.M.files = {b'part': list({'if in file': b' if 1\n fcb 5\n', 'endif in file': b' fcb 5\n endif\n', 'else in file': b' else\n fcb 5\n'}.get(what, b' if 0\n fcb 5\n else\n fcb 6\n endif\n'))}
        progs = {'if in file': ([inc, m(1), E], None), 'endif in file': ([I, inc, m(1)], None), 'else in file': ([I, inc, E], 'include'),
                 'if in macro': (mac(I) + [use, m(1), E], None), 'endif in macro': (mac(E) + [I, use, m(1)], None), 'if in macro only': (mac(I) + [use], None),
                 'whole in file': ([I, inc, E, m(7)], [6]), 'whole in macro': (mac((None, 'if', [('int', 0)]), m(5), (None, 'else', None), m(6), E) + [I, use, E, m(7)], [6])}
        ls, want = progs[what]
        ps = asm(ctx, ls)
        obs = line_obs(ctx)
        if want is None:
            cs = [Case(what, [], cls='err')]
        elif want == 'include':
            cs = [Case('skipped', [lin(c, 0, 0)], cls='ok', bytes=[]), Case('read', [lin(c, 1, FAR)], cls='err'), Case('read', [lin(c, -FAR, -1)], cls='err')]
        else:
            cs = [Case('skipped', [lin(c, 0, 0)], cls='ok', bytes=[7])] + [Case('assembled', [lin(c, *r)], cls='ok', bytes=want + [7]) for r in ((1, FAR), (-FAR, -1))]
        if what == 'endif in macro':
            cs = [Case(what, [], cls='err')]
        compare(ctx, rep, ps, cs, obs, seed=ctx.seed)
    return go


def deep_chain(d, els):
    s = simple(1, els)
    for _ in range(d):
        s = ('if', [[s, 'm']], ['m'] if els else None)
    return [s, 'm']


def concrete(shape, truth):
    """like structure() with fixed conditions (deep nesting)"""
    def go(ctx, rep):
        b = B()
        t = build(b, shape)
        b.conds = [1 if (truth >> (i % 12)) & 1 else 0 for i in range(len(b.conds))]
        o, _ = select(t, b.conds)
        compare(ctx, rep, asm(ctx, lines(b, t)), [Case('fixed conditions', [], cls='ok', bytes=o)], line_obs(ctx), seed=ctx.seed)
    return go


def concrete_(shape, k):
    def go(ctx, rep):
        b = B()
        t = build(b, shape)
        b.conds = [1 if i >= k and (i - k) % 3 != 1 else 0 for i in range(len(b.conds))]
        o, _ = select(t, b.conds)
        compare(ctx, rep, asm(ctx, lines(b, t)), [Case('fixed conditions', [], cls='ok', bytes=o)], line_obs(ctx), seed=ctx.seed)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog')
    deep = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        for e in (0, 1):
            out.append(('IF with %d ELSIF%s' % (n - 1, ' and ELSE' if e else ''), structure(['m', simple(n, e), 'm'], '%d conditions' % n)))
            out.append(('empty branches, %d ELSIF%s' % (n - 1, ' and ELSE' if e else ''), structure([('if', [[]] * n, [] if e else None), 'm'], 'empty branches')))
    for i, (what, sh) in enumerate(nested()):
        out.append(('nested structure %d, %s' % (i, what), structure(sh, 'nested')))
    for a in SHAPES:
        for b in SHAPES:
            out.append(('one after another %s %s' % (len(a[1]), len(b[1])), structure([a, b, 'm'], 'in a row')))
            out.append(('both inside %s %s' % (len(a[1]), len(b[1])), structure([('if', [[a, b]], [b] if deep else ['m']), 'm'], 'two inside')))
    for d in (1, 2, 3, 4):
        for e in (0, 1):
            out.append(('chain of depth %d%s' % (d, ' with ELSE' if e else ''), structure(deep_chain(d, e), 'chain')))
    for n in (20, 70, 300):
        for k in (0, 1, 7, n // 2, n - 1, n):
            out.append(('%d ELSIFs, branch %d' % (n - 1, k), concrete_([simple(n, 1), 'm'], k)))
    for d in (8, 20, 70, 300):
        for t in (0, 1, 3, 7, 0xfff, 0xffe, 0x555, 0x7ff, 0xf0f) if d < 300 or deep else (0xfff, 0x555, 0xffe):
            out.append(('chain of depth %d, conditions %x' % (d, t), concrete(deep_chain(d, 1), t)))
    for i, f in enumerate((str.upper, str.capitalize, lambda s: ''.join(c.upper() if k & 1 else c for k, c in enumerate(s)))):
        out.append(('directive case %d' % i, structure([simple(2, 1), 'm'], 'letter case', lambda _, s, f=f: f(s))))
    for n in content():
        for w in ('if', 'else', 'elsif', 'nested', 'after'):
            out.append(('%s in %s' % (n, w), branch(n, w)))
    for n in ('org', 'put', 'rmb', 'section', 'setdp'):
        out.append(('skipped %s' % n, moving(n)))
    for n, e, t in EXPR:
        for w in ('if', 'elsif'):
            out.append(('%s in %s' % (n, w), undefined(n, e, t, w)))
    out.append(('symbol in condition', defined_symbol()))
    out.append(('condition on a later symbol', later()))
    out.append(('conditionals in a macro', macros()))
    for n in range(1, 5 if not deep else 6):
        for seq in itertools.product(('if', 'elsif', 'else', 'endif'), repeat=n):
            out.append(('sequence %s' % ' '.join(seq), unbalanced(seq, balanced(seq))))
    for w in ('if in file', 'endif in file', 'else in file', 'if in macro', 'endif in macro', 'if in macro only', 'whole in file', 'whole in macro'):
        out.append(('%s' % w, files(w)))
    out += embed.subjects('C17', tier)
    return out
