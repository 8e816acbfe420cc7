"""Abstract interpretation of assemble_prog (and of main for two passes and for -d) over histories of
definitions and uses.  (a) every way of giving a symbol a value - EQU, SET, label on every kind of line,
command line - with abstract values of every kind, observed as the symbol's value and by use; (b) every
history of up to three (thorough: four) uses, EQU, SET, labels and definitions of another symbol, in a
first pass and in a later pass over a table of abstract values, against a reference symbol table;
(c) names: prefixes, case, every collision of the table's hash, tables of hundreds of symbols."""
import itertools
import embed
from common import *
from c10 import run_passes, lab
from outfmt import check_format, Block
RULE = 'subject = history of definitions and uses | kind of value | set of names; obligation = trace partition'
TECHNIQUE = 'abstract interpretation of symbol definition and use against a reference symbol table'
FAR = 1 << 66


def val(ctx, kind, n='v'):
    """(operand, expected kind, expected value)"""
    f = fin(n)
    v = v64(n)
    s = [inp('%s_%d' % (n, i), 8, 1, 255) for i in range(4)]
    return {'int': (('int', v), 'int', v), 'float': (('float', f), 'float', f), 'string': (('str', s), 'string', s), 'empty string': (('str', ''), 'string', []), 'one character': (('str', s[:1]), 'string', s[:1]),
            'reg': (reg('U'), 'reg', REGS['U']), 'negative': (('int', -1), 'int', (1 << 64) - 1), 'sum': (('op', ord('+'), ('int', v), ('int', 5)), 'int', mk(64, 5, dict(v.t))),
            'negation': (('op', ord('-'), ('int', v)), 'int', mk(64, 0, {k: -x for k, x in v.t})),
            'symbol': (lab('other'), 'int', v64('other')), 'largest': (('int', MAX64), 'int', MAX64), 'smallest': (('int', MIN64), 'int', 1 << 63), 'id of string': (('id', [('str', 'other')]), 'int', v64('other'))}[kind]


def defined(how, kind):
    def go(ctx, rep):
        a, k, v = val(ctx, kind)
        ls = {'equ': [(lab('foo'), 'equ', [a])], 'EQU': [(lab('foo'), 'EQU', [a])], 'set': [(lab('foo'), 'set', [a])],
              'set twice': [(lab('foo'), 'set', [('int', 3)]), (lab('foo'), 'set', [a])],
              'set from itself': [(lab('foo'), 'set', [a]), (lab('foo'), 'set', [lab('foo')])],
              'through another': [(lab('bar'), 'equ', [a]), (lab('foo'), 'equ', [lab('bar')])],
              'set then alias': [(lab('bar'), 'set', [a]), (lab('foo'), 'equ', [lab('bar')]), (lab('bar'), 'set', [('int', 77)])]}[how]
        ps = asm(ctx, [(lab('other'), 'equ', [('int', v64('other'))])] + ls)
        compare(ctx, rep, ps, [Case('%s of %s' % (how, kind), [], cls='ok', kind=k, value=v)], value_obs(ctx, 'foo'), seed=ctx.seed)
    return go


def used(kind):
    """the value is the same in every kind of use"""
    def go(ctx, rep):
        from c18 import relate
        a = val(ctx, kind)[0]
        d = [(lab('other'), 'equ', [('int', v64('other'))])]
        U = [(None, 'fcb', [lab('foo')]), (None, 'fdb', [lab('foo')]), (None, 'fqb', [lab('foo')]), (None, 'fcc', [lab('foo'), ('int', 1)])]
        U1 = [(None, o, [a] + x[1:]) for _, o, x in U]
        if kind not in ('float', 'reg'):
            U.append((None, 'fcc', [('text', ['"', lab('foo'), '"'])])) if False else None
        relate(ctx, rep, d + [(lab('foo'), 'equ', [a])] + U, d + U1, 'used: %s' % kind)
        for e in ('+', '-', '*'):
            if kind == 'reg':
                break
            x = lambda y: [(None, 'fqb', [('op', ord(e), y, ('int', 3))]), (None, 'fqb', [('op', ord(e), ('int', 3), y)])]
            relate(ctx, rep, d + [(lab('foo'), 'equ', [a])] + x(lab('foo')), d + x(a), 'used in %s: %s' % (e, kind))
        if kind in ('int', 'negative', 'sum', 'symbol'):
            for o in ('lda', 'ldx', 'jmp', 'sta'):
                relate(ctx, rep, d + [(lab('foo'), 'equ', [a]), (None, o, [lab('foo')])], d + [(None, o, [a])], 'used by %s' % o)
            relate(ctx, rep, d + [(lab('foo'), 'equ', [a]), (None, 'ldx', [imm(ctx, lab('foo'))]), (None, 'leax', [lab('foo'), reg('X')])], d + [(None, 'ldx', [imm(ctx, a)]), (None, 'leax', [a, reg('X')])], 'used as immediate, offset')
        if kind == 'reg':
            relate(ctx, rep, d + [(lab('foo'), 'equ', [a]), (None, 'tfr', [reg('D'), lab('foo')]), (None, 'lda', [('int', 3), lab('foo')])], d + [(None, 'tfr', [reg('D'), a]), (None, 'lda', [('int', 3), a])], 'used as register')
    return go


# ---- labels

LABEL = {
    'alone': (None, None), 'instruction': ('nop', None), 'instruction with operand': ('lda', ('int', 5)), 'fcb': ('fcb', ('int', 1)), 'fdb': ('fdb', ('int', 1)), 'fcc': ('fcc', ('str', 'hello')), 'rmb': ('rmb', ('int', 3)),
    'fill': ('fill', None), 'align': ('align', ('int', 4)), 'includebin': ('includebin', ('str', 'bin')), 'put': ('put', ('int', 0x3000)), 'setdp': ('setdp', ('int', 1)), 'include': ('include', ('str', 'inc')), 'macro use': ('mac', None),
    'page': ('page', None), 'branch': ('bra', ('pc',)),
}


def label(kind, lo=0, hi=0xff00):
    """a label has the address of its line, before the line has any effect"""
    def go(ctx, rep):
        ctx.M.files = {b'bin': [1, 2, 3], b'inc': list(b' nop\n')}
        o, a = LABEL[kind]
        p = v64('p', lo, hi)
        args = [('int', 2), ('int', 3)] if kind == 'fill' else [imm(ctx, a)] if o == 'lda' else [a] if a else None
        pre = [(lab('mac'), 'macro', None), (None, 'nop', None), (None, 'endm', None)] if kind == 'macro use' else []
        ps = asm(ctx, pre + [(None, 'org', [('int', p)]), (lab('foo'), o, args)])
        compare(ctx, rep, ps, [Case('label: %s' % kind, [], cls='ok', kind='int', value=p)], value_obs(ctx, 'foo'), seed=ctx.seed)
        # and not affected by anything after
        ps = asm(ctx, pre + [(None, 'org', [('int', p)]), (lab('foo'), o, args), (None, 'nop', None), (lab('bar'), 'nop', None), (None, 'section', [('str', 'x')]), (lab('baz'), 'nop', None)])
        compare(ctx, rep, ps, [Case('label: %s' % kind, [], cls='ok', kind='int', value=p)], value_obs(ctx, 'foo'), seed=ctx.seed)
    return go


def moved():
    """labels of ORG and sections have the new address"""
    def go(ctx, rep):
        p, q = v64('p', 0, 0xff00), v64('q', 0, 0xff00)
        for n, ls, w in (('ORG', [(None, 'org', [('int', p)]), (lab('foo'), 'org', [('int', q)])], q),
                         ('SECTION', [(None, 'org', [('int', p)]), (None, 'section', [('str', 's')]), (None, 'org', [('int', q)]), (None, 'section', [('str', 'CODE')]), (lab('foo'), 'section', [('str', 's')])], q),
                         ('CODE', [(None, 'data', None), (None, 'org', [('int', q)]), (None, 'code', None), (None, 'org', [('int', p)]), (lab('foo'), 'data', None)], q),
                         ('PC', [(None, 'org', [('int', p)]), (lab('foo'), 'equ', [('pc',)]), (None, 'nop', None)], p),
                         ('PC in SET', [(None, 'org', [('int', p)]), (lab('foo'), 'set', [('int', 1)]), (lab('foo'), 'set', [('pc',)]), (None, 'org', [('int', q)])], p)):
            compare(ctx, rep, asm(ctx, ls), [Case('label of %s' % n, [], cls='ok', kind='int', value=w)], value_obs(ctx, 'foo'), seed=ctx.seed)
    return go


# ---- histories.  ops: 'u' use, 'e' EQU, 's' SET, 'l' label, 'o' EQU of another symbol, 'n' SET adding one to itself

OPS = 'ueslon'


def history(h, later):
    """one pass over this history; later = None or the kind of table left by an earlier pass: 'foo' | 'other' """
    def go(ctx, rep):
        vs = [v64('v%d' % i) for i in range(len(h))]
        pc = 0x1000
        known = {}                      # name -> value (before, or this pass)
        here = set()                    # defined in this pass
        lines, out, conds, bad = [(None, 'org', [('int', pc)])], [], [], False
        prior = {}
        pre = None
        if later:
            for n in later:
                prior[n] = v64('prior_' + n)
                known[n] = prior[n]

            def pre(st):
                for n in later:
                    st, k = ctx.cstr(st, n)
                    st, nd = ctx.node(st, ('int', prior[n]))
                    st, _ = ctx.call(st, 'symbol_set', k, nd, 0, 0)
                return st

        def define(n, v, change):
            nonlocal bad
            if not change:
                if n in here:
                    bad = True
                    return
                if later is not None:
                    if n in known:
                        conds.append((v, known[n]))
                    else:
                        bad = True
            known[n] = v
            here.add(n)
        for i, c in enumerate(h):
            v = vs[i]
            if c == 'u':
                lines.append((None, 'fqb', [lab('foo')]))
                if 'foo' in known:
                    out.append(known['foo'])
                else:
                    out.append(None)
                    bad = True
                pc += 4
            elif c == 'e':
                lines.append((lab('foo'), 'equ', [('int', v)]))
                define('foo', v, False)
            elif c == 's':
                lines.append((lab('foo'), 'set', [('int', v)]))
                define('foo', v, True)
            elif c == 'n':
                lines.append((lab('foo'), 'set', [('op', ord('+'), lab('foo'), ('int', 1))]))
                if 'foo' in known:
                    k = known['foo']
                    define('foo', mk(64, k.c + 1, dict(k.t)) if type(k) is S else k + 1, True)
                else:
                    return rep.note('unspecified')      # a symbol set from itself before it has a value
            elif c == 'l':
                lines.append((lab('foo'), None, None))
                define('foo', pc, False)
            elif c == 'o':
                lines.append((lab('other'), 'equ', [('int', v)]))
                define('other', v, False)

        def obs(p):
            if p.status == 'exit':
                return {'cls': 'exit'}
            o = line_obs(ctx)(p)
            r = {'cls': o['cls']}
            for n in ('foo', 'other'):
                x = sym_value(ctx, p.st, n)
                r['value of ' + n] = x[1] if x else None
            bs = o['bytes']
            for i in range(len(out)):
                r['use %d' % i] = bs[4 * i:4 * i + 4] if bs is not None else None
            return r
        want = {'value of ' + n: known.get(n) for n in ('foo', 'other')}
        for i, w in enumerate(out):
            if w is None:
                break           # what an undefined symbol emits is not specified, nor what follows at which offset
            want['use %d' % i] = be(w, 4) if type(w) is S else list(int(w).to_bytes(4, 'big'))
        cases = []
        same = []
        for v, w in conds:
            if v is w:
                continue
            d = lform((v if type(v) is int else 0) - (w if type(w) is int else 0), *([(v, 1)] if type(v) is S else []), *([(w, -1)] if type(w) is S else []))
            same.append(d)
        cases.append(Case('as before', [lin(d, 0, 0) for d in same], cls='err' if bad else 'ok', **want))
        for i, d in enumerate(same):
            for lo, hi in ((1, FAR), (-FAR, -1)):
                cases.append(Case('changed', [lin(x, 0, 0) for x in same[:i]] + [lin(d, lo, hi)], cls='err', **want))
        ps = asm(ctx, lines, pass_=1 if later is not None else 0, pre=pre)
        compare(ctx, rep, ps, cases, obs, seed=ctx.seed)
    return go


def redefined(a, b):
    """every pair of ways of defining: the second is diagnosed and the first value stays"""
    def go(ctx, rep):
        v, w = v64('v'), v64('w')
        W = {'equ': lambda x: [(lab('foo'), 'equ', [('int', x)])], 'label': lambda x: [(lab('foo'), None, None)], 'instruction': lambda x: [(lab('foo'), 'nop', None)], 'org': lambda x: [(lab('foo'), 'org', [('int', 0x123)])],
             'section': lambda x: [(lab('foo'), 'section', [('str', 'foo')])], 'data': lambda x: [(lab('foo'), 'fcb', [('int', 1)])], 'put': lambda x: [(lab('foo'), 'put', [('int', 0x2000)])],
             'float': lambda x: [(lab('foo'), 'equ', [('float', fin(x is v and 'fv' or 'fw'))])], 'string': lambda x: [(lab('foo'), 'equ', [('str', 'text')])], 'reg': lambda x: [(lab('foo'), 'equ', [reg('X')])], 'rmb': lambda x: [(lab('foo'), 'rmb', [('int', 3)])],
             'same': lambda x: [(lab('foo'), 'equ', [('int', 0x1001)])], 'set': lambda x: [(lab('foo'), 'set', [('int', x)])]}
        vals = {'equ': v, 'org': 0x123, 'section': 0x1000, 'float': fin('fv'), 'string': list(b'text'), 'reg': REGS['X'], 'same': 0x1001, 'set': v}
        first = vals.get(a, 0x1000)
        if a == 'section':
            first = None
        ps = asm(ctx, [(None, 'org', [('int', 0x1000)])] + W[a](v) + W[b](w))
        want = dict(cls='err')
        if first is not None:
            want['value'] = first
        compare(ctx, rep, ps, [Case('%s then %s' % (a, b), [], **want)], value_obs(ctx, 'foo'), seed=ctx.seed)
    return go


# ---- names

def collisions():
    """pairs of names with the same hash in the symbol table's hash function (33*h + c), and near misses"""
    return [('ab', 'bA'), ('aB', 'b!'.replace('!', '_')), ('AbAb', 'AbbA'), ('bAbA', 'abab'), ('abbA', 'bAab'), ('foo.Qa', 'foo.R@')]


NAMESETS = {
    'case': ['foo', 'FOO', 'Foo', 'fOO', 'foO', 'fOo', 'FoO', 'FOo'],
    'prefixes': ['a', 'aa', 'aaa', 'aaaa', 'aaaaa', 'b', 'ab', 'ba', 'aab', 'aba', 'baa'],
    'hash collisions': sorted({n for a, b in collisions() for n in (a, b)} | {'abab', 'abbA', 'bAab', 'bAbA'}),
    'underscores and dots': ['_', '__', '.', '_.', '._', 'a.b', 'a_b', 'a..b', 'a__b', '.a', '_a'],
    'digits': ['a1', 'a2', 'a11', 'a12', 'a01', 'a001', 'a10', 'a100'],
    'like registers': ['ax', 'xa', 'pcx', 'xpc', 'dd', 'ss', 'yy', 'aa', 'ccr', 'dpr'],
    'like instructions': ['nop', 'lda', 'NOP', 'equ', 'EQU', 'org', 'fcb', 'macro', 'end', 'if', 'include'],
    'long': ['x' * 64 + c for c in 'abcdef'] + ['x' * 64, 'x' * 63, 'x' * 255 + 'a', 'x' * 255 + 'b'],
    'prefixes by doubling': [c for n in (4, 6, 7, 8, 15, 16, 31, 32, 48, 63, 100, 127, 128, 200, 254, 255, 256, 300) for c in ('q' * n + 'a', 'q' * n + 'l')],
    'suffixes by doubling': [c + 'q' * n for n in (4, 7, 8, 15, 16, 31, 32, 63, 127, 128, 255, 256) for c in ('ab', 'bA')],
    'like sections': ['CODE', 'code', 'DATA', 'data'],
}


def names(ns, order, how):
    def go(ctx, rep):
        # a change of value is compared with the old one: constants, one of them abstract
        vs = [(i * 0x111 + 7 if order == 'redefine' and i else v64('v%d' % i, 0, 0x7fff)) for i in range(len(ns))]
        ls = [(lab(n), how, [('int', v)]) for n, v in zip(ns, vs)]
        use = [(None, 'fdb', [lab(n)]) for n in ns]
        if order == 'reverse':
            ls = ls[::-1]
        elif order == 'redefine':
            # each name again: diagnosed, and values kept
            ls = ls + [(lab(n), 'set', [('int', v)]) for n, v in zip(ns, vs[1:] + vs[:1])]
            vs = vs[1:] + vs[:1]
        want = sum([be(v, 2) if type(v) is S else list(v.to_bytes(2, 'big')) for v in vs], [])
        compare(ctx, rep, asm(ctx, ls + use), [Case('names', [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


def one_undefined(ns, i):
    """all names but one defined: the one is undefined"""
    def go(ctx, rep):
        ls = [(lab(n), 'equ', [('int', 1)]) for j, n in enumerate(ns) if j != i]
        compare(ctx, rep, asm(ctx, ls + [(None, 'fdb', [lab(ns[i])])]), [Case('undefined', [], cls='err', defined=False)], value_obs(ctx, ns[i]), seed=ctx.seed)
        compare(ctx, rep, asm(ctx, ls), [Case('defined', [], cls='ok')], value_obs(ctx, ns[i]), seed=ctx.seed)
    return go


def many(n):
    def go(ctx, rep):
        ns = ['s%d' % (i * 7919 % 100003) for i in range(n)]
        v = v64('v', 0, 0x7fff)
        ls = [(lab(s), 'equ', [('int', (i * 31) & 0x7fff)]) for i, s in enumerate(ns)] + [(lab('target'), 'equ', [('int', v)])]
        ls += [(None, 'fdb', [lab(s)]) for s in ns] + [(None, 'fdb', [lab('target')])]
        want = sum([list(((i * 31) & 0x7fff).to_bytes(2, 'big')) for i in range(n)], []) + be(v, 2)
        compare(ctx, rep, asm(ctx, ls), [Case('%d symbols' % n, [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


# ---- the command line, and whole runs

def whole_(ctx, rep, argv, src, blocks, what, assume=(), files={}):
    from c11 import whole
    ps = run_main(ctx, ['-S', '-o', 'out'] + argv + ['in.s'], {'in.s': src, **files}, assume=assume)
    check_format(ctx, rep, ps, [([], whole([Block(0, blocks)], None) if blocks is not None else None)], what)


def cmdline(case):
    def go(ctx, rep):
        d = [inp('d%d' % i, 8, 0x31, 0x39) for i in range(2)]
        num = mk(8, -48 * 11 & 0xff, {**{a: 10 * k for a, k in d[0].t}, **dict(d[1].t)})
        C = {
            'value': (['-d', list(b'foo=') + d], b' fcb foo\n', [num]),
            'long option': (['--define', list(b'foo=') + d], b' fcb foo,foo\n', [num, num]),
            'long option with =': ([list(b'--define=foo=') + d], b' fcb foo\n', [num]),
            'no value': (['-d', 'foo'], b' fcb foo\n', [1]),
            'two symbols': (['-d', list(b'foo=') + d, '-d', 'bar=3'], b' fcb bar,foo\n', [3, num]),
            'case': (['-d', list(b'foo=') + d, '-d', 'FOO=4'], b' fcb foo,FOO\n', [num, 4]),
            'hex': (['-d', 'foo=0x12', '-d', 'bar=$fe'], b' fcb foo,bar\n', [0x12, 0xfe]),
            'redefined by source': (['-d', list(b'foo=') + d], b'foo equ 1\n fcb foo\n', None),
            'redefined by source label': (['-d', list(b'foo=') + d], b'foo nop\n', None),
            'SET in source': (['-d', list(b'foo=') + d], b'foo set 5\n fcb foo\n', [5]),
            'expression': (['-d', list(b'foo=') + d], b'bar equ foo+1\n fcb bar\n', [mk(8, num.c + 1, dict(num.t))]),
            'used in condition': (['-d', 'foo'], b' if foo\n fcb 1\n else\n fcb 2\n endif\n if bar\n fcb 3\n endif\n', [1]),
            'forward reference': (['-d', list(b'foo=') + d], b' fdb bar\nbar equ foo\n', [0, num]),
        }[case]
        whole_(ctx, rep, C[0], C[1], C[2], case)
    return go


SOURCES = {
    'forward and backward': (b'aa equ bb+1\nbb equ cd+1\ncd equ 5\n fcb aa,bb,cd\n', [7, 6, 5]),
    'long chain': (b'aa equ bb\nbb equ cd\ncd equ de\nde equ ef\nef equ fg\nfg equ 9\n fcb aa\n', [9]),
    'undefined': (b' fcb nowhere\n', None), 'circular': (b'aa equ bb+1\nbb equ aa+1\n fcb aa\n', None), 'self': (b'aa equ aa\n', None),
    'SET in turn': (b'aa set 1\n fcb aa\naa set aa+1\n fcb aa\naa set aa*5\n fcb aa\n', [1, 2, 10]),
    'SET and forward reference': (b' fcb bb\naa set 1\naa set 2\nbb equ aa\n', [2]),
    'string': (b'str equ "AB"\n fcc str\n fcb str\n', [65, 66, 65, 66]), 'register': (b'r equ x\n tfr d,r\n', [0x1f, 0x01]), 'float': (b'fl equ 2.5\n fcb fl*2\n', [5]),
    'label and data': (b'aa fcb 1\nbb fcb 2\n fdb aa,bb,cd\ncd fcb 3\n', [1, 2, 0, 0, 0, 1, 0, 8, 3]),
    'same value twice': (b'aa equ 1\naa equ 1\n', None), 'defined in a macro': (b'm macro\nl\\1 equ \\1\n endm\n m 1\n m 2\n fcb l1,l2\n', [1, 2]), 'twice through a macro': (b'm macro\nl equ 1\n endm\n m\n m\n', None),
    'upper and lower': (b'Aa equ 1\naA equ 2\naa equ 3\nAA equ 4\n fcb Aa,aA,aa,AA\n', [1, 2, 3, 4]),
}


def source(n):
    def go(ctx, rep):
        whole_(ctx, rep, [], SOURCES[n][0], SOURCES[n][1], n)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'main', 'symbol_set')
    deep = tier == 'thorough'
    out = []
    KINDS = ('int', 'float', 'string', 'empty string', 'one character', 'reg', 'negative', 'sum', 'negation', 'symbol', 'largest', 'smallest', 'id of string')
    for how in ('equ', 'EQU', 'set', 'set twice', 'set from itself', 'through another', 'set then alias'):
        for k in KINDS:
            out.append(('%s of %s' % (how, k), defined(how, k)))
    for k in KINDS:
        out.append(('uses of %s' % k, used(k)))
    for k in LABEL:
        out.append(('label on %s' % k, label(k)))
    out.append(('labels of moving lines', moved()))
    for n in range(1, 5 if deep else 4):
        for h in itertools.product(OPS, repeat=n):
            if 'o' in h and n == 4 and h.count('o') > 1:
                continue
            h = ''.join(h)
            out.append(('history %s' % h, history(h, None)))
            if n < 4:
                out.append(('history %s in a later pass' % h, history(h, ('foo', 'other'))))
                out.append(('history %s in a later pass, new symbol' % h, history(h, ('other',))))
    WAYS = ('equ', 'label', 'instruction', 'org', 'section', 'data', 'put', 'float', 'string', 'reg', 'rmb', 'same')
    for a in WAYS + ('set',):
        for b in WAYS:
            out.append(('%s then %s' % (a, b), redefined(a, b)))
    for k, ns in NAMESETS.items():
        for o in ('forward', 'reverse'):
            out.append(('names: %s, %s' % (k, o), names(ns, o, 'equ')))
        out.append(('names: %s, changing' % k, names(ns, 'redefine', 'set')))
        for i in range(0, len(ns), 1 if len(ns) < 13 or deep else 3):
            out.append(('names: %s, all but %s' % (k, ns[i] if len(ns[i]) < 20 else 'number %d' % i), one_undefined(ns, i)))
    for n in (20, 60, 150, 400) + ((600,) if deep else ()):
        out.append(('%d symbols' % n, many(n)))
    for c in ('value', 'long option', 'long option with =', 'no value', 'two symbols', 'case', 'hex', 'redefined by source', 'redefined by source label', 'SET in source', 'expression', 'used in condition', 'forward reference'):
        out.append(('command line: %s' % c, cmdline(c)))
    for n in SOURCES:
        out.append(('source: %s' % n, source(n)))
    out += embed.subjects('C19', tier)
    return out
