"""Abstract interpretation of assemble_prog over macro definitions and uses.  Oracle by relation: a use must
give, on every trace partition, the result of the same lines with every positional variable replaced by
the argument (which C01-C08, C16, C19 decide), for arguments of every kind with abstract values, every
position and count, pasted into names, instruction fields and strings, at every nesting depth within the
limit, with the outer arguments in force again after an inner use.  Definitions have no effect of their
own; missing arguments, redefinition, stray ENDM, unfinished definitions and unbounded recursion must be
diagnosed."""
import itertools
import embed
from common import *
from c10 import run_passes, lab
RULE = 'subject = (macro bodies, uses, argument kinds); obligation = pair of trace partitions (use, substituted lines)'
TECHNIQUE = 'abstract interpretation relating macro uses to the substituted lines'


def V(k):
    return ('interp', str(k))


def subst(x, args):
    """replace positional variables by the arguments"""
    if type(x) is tuple and x and x[0] == 'interp':
        return args[int(x[1]) - 1]
    if type(x) is tuple and x and x[0] in ('id', 'text'):
        parts = x[1]
        if len(parts) == 1 and type(parts[0]) is tuple and parts[0][0] == 'interp' and x[0] == 'id':
            return args[int(parts[0][1]) - 1]
        out = []
        for p in parts:
            if type(p) is tuple and p[0] == 'interp':
                a = args[int(p[1]) - 1]
                p = textof(a)
            out.append(p if type(p) is str or isinstance(p, list) else p)
        if any(isinstance(p, list) for p in out):
            flat = []
            for p in out:
                flat += list(p.encode()) if type(p) is str else p if isinstance(p, list) else list(p[1].encode())
            return ('str', flat) if x[0] == 'text' else ('id', [('str', flat)])
        s = ''.join(p if type(p) is str else p[1] for p in out)
        return ('str', s) if x[0] == 'text' else ('id', [s])
    if type(x) is tuple:
        return tuple(subst(y, args) for y in x)
    if type(x) is list:
        return [subst(y, args) for y in x]
    return x


NAMES = {v: k for k, v in REGS.items()}


def textof(a):
    if a[0] == 'str':
        return a[1]
    if a[0] == 'int' and type(a[1]) is int:
        return str(a[1])
    if a[0] == 'reg':
        return NAMES[a[1]].lower()
    raise Exception(a)


def define(name, body):
    return [(lab(name), 'macro', None)] + body + [(None, 'endm', None)]


def sub_lines(body, args):
    out = []
    for l, o, a in body:
        o2 = subst(o, args) if type(o) is tuple else o
        if type(o2) is tuple and o2[0] in ('str', 'id'):
            o2 = ('id', [o2[1] if o2[0] == 'str' else o2[1][0]])
        l2 = subst(l, args)
        if type(l2) is tuple and l2[0] == 'str':
            l2 = ('id', [l2[1]])
        out.append((l2, o2, subst(a, args)))
    return out


def obs(ctx, names=()):
    base = line_obs(ctx)

    def f(p):
        o = dict(base(p))
        if p.status != 'exit':
            for n in names:
                v = sym_value(ctx, p.st, n)
                o['symbol ' + n] = v[0] if v else None
                o['value of ' + n] = v[1] if v else None
        return o
    return f


def relate(ctx, rep, lines, direct, what, names=(), isa=0, pre=()):
    """lines must give what direct gives"""
    qs = asm(ctx, list(pre) + direct, isa=isa)
    ob = obs(ctx, names)
    cases = []
    for q in qs:
        if q.status == 'alarm':
            raise Gap('fault in the substituted lines')
        o = ob(q)
        if o['cls'] == 'err':
            want = dict(cls='err')
        else:
            want = {k: o[k] for k in o if k in ('cls', 'bytes', 'org', 'put') or k.startswith(('symbol', 'value'))}
        cases.append(Case(what, list(q.st.facts()), **want))
    ps = asm(ctx, list(pre) + lines, isa=isa)
    compare(ctx, rep, ps, cases, ob, seed=ctx.seed)


BEFORE, AFTER = (None, 'fcb', [('int', 0xb0)]), (None, 'fcb', [('int', 0xaf)])


def arg(ctx, kind, i):
    n = 'a%d' % i
    return {'int': lambda: ('int', v64(n)), 'small': lambda: ('int', v64(n, -16, 15)), 'float': lambda: ('float', fin(n)), 'str': lambda: ('str', [inp('%s_%d' % (n, k), 8, 1, 255) for k in range(2)]),
            'empty string': lambda: ('str', ''), 'word': lambda: ('str', 'foo%d' % i), 'reg': lambda: reg('XYUS'[i % 4]), 'acc': lambda: reg('AB'[i % 2]), 'const': lambda: ('int', 7 + i), 'negative': lambda: ('int', -3 - i),
            'zero': lambda: ('int', 0), 'big': lambda: ('int', (1 << 62) + i), 'empty': lambda: ('empty',), 'list': lambda: ('arr', [('int', v64(n, 0, 0xffff))]), 'imm': lambda: imm(ctx, ('int', v64(n))),
            'symbol': lambda: lab('sym%d' % i), 'undefined': lambda: lab('nowhere'), 'expr': lambda: ('op', ord('+'), ('int', v64(n, 0, 1000)), lab('sym%d' % i)), 'imm5': lambda: ('int', v64(n, 0, 0x7f))}[kind]()


SYMS = [(lab('sym%d' % i), 'equ', [('int', v64('sym%d' % i))]) for i in range(3)]
SMALL = [(lab('sym%d' % i), 'equ', [('int', 100 + i)]) for i in range(3)]


def ident(k):
    return ('id', [V(k)])


# bodies using one variable by value
BODIES = {
    'fcb': [(None, 'fcb', [ident(1)])], 'fdb': [(None, 'fdb', [ident(1)])], 'fqb': [(None, 'fqb', [ident(1)])], 'fcc': [(None, 'fcc', [ident(1)])], 'fcs': [(None, 'fcs', [ident(1)])],
    'lda': [(None, 'lda', [ident(1)])], 'twice': [(None, 'fdb', [ident(1), ident(1)]), (None, 'fdb', [ident(1)])],
    'expression': [(None, 'fdb', [('op', ord('+'), ident(1), ('int', 1)), ('op', ord('-'), ident(1))])],
    'equ': [(lab('out'), 'equ', [ident(1)])], 'set': [(lab('out'), 'set', [ident(1)]), (lab('out'), 'set', [ident(1)])],
    'no variable': [(None, 'nop', None)], 'empty body': [],
    'blank lines': [(None, None, None), (None, 'fdb', [ident(1)]), (None, None, None)],
    'bare variable': [(None, 'fdb', [V(1)])],
}


def by_value(body, kind, isa=0):
    def go(ctx, rep):
        a = arg(ctx, kind, 0)
        b = BODIES[body]
        relate(ctx, rep, define('mac', b) + [BEFORE, (None, 'mac', [a]), AFTER], [BEFORE] + sub_lines(b, [a]) + [AFTER], 'by value: %s' % kind, ('out',) if body in ('equ', 'set') else (), isa, SYMS)
    return go


def two_args(op, k1, k2, order, isa=0):
    def go(ctx, rep):
        args = [arg(ctx, k1, 0), arg(ctx, k2, 1)]
        b = [(None, op, [(lambda x: imm(ctx, x) if op == 'oim' and not j else x)(ident(k)) for j, k in enumerate(order)])]
        relate(ctx, rep, define('mac', b) + [(None, 'mac', args), AFTER], sub_lines(b, args) + [AFTER], 'two arguments', (), isa, SYMS)
    return go


def positions(n, k):
    """n arguments; every variable, in reverse and in order"""
    def go(ctx, rep):
        args = [('int', v64('a%d' % i)) for i in range(n)]
        b = [(None, 'fdb', [ident(j)]) for j in range(n, 0, -1)] + [(None, 'fcb', [ident(j) for j in range(1, n + 1)])] + [(None, 'fqb', [ident(k)])]
        ps = asm(ctx, define('mac', b) + [(None, 'mac', args)])
        want = sum([be(a[1], 2) for a in reversed(args)], []) + [byte(a[1]) for a in args] + be(args[k - 1][1], 4)
        compare(ctx, rep, ps, [Case('%d arguments' % n, [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


def missing(n, k, how):
    def go(ctx, rep):
        args = [('int', v64('a%d' % i)) for i in range(n)] if n is not None else None
        x = {'value': (None, 'fcb', [ident(k)]), 'bare': (None, 'fcb', [V(k)]), 'expression': (None, 'fcb', [('op', ord('+'), ('int', 1), ident(k))]), 'name': (None, 'fcb', [('id', ['foo', V(k)])]),
             'string': (None, 'fcc', [('text', ['a', V(k)])]), 'opcode': (None, ('id', [V(k)]), None), 'label': (('id', ['l', V(k)]), 'equ', [('int', 1)])}[how]
        ps = asm(ctx, define('mac', [x]) + [(None, 'mac', args)])
        compare(ctx, rep, ps, [Case('missing argument', [], cls='err')], line_obs(ctx), seed=ctx.seed)
        # the same outside any macro
        compare(ctx, rep, asm(ctx, [x]), [Case('variable outside a macro', [], cls='err')], line_obs(ctx), seed=ctx.seed)
        # and after one
        ps = asm(ctx, define('mac', [(None, 'nop', None)]) + [(None, 'mac', [('int', 1)] * max(1, k)), x])
        compare(ctx, rep, ps, [Case('variable outside a macro', [], cls='err')], line_obs(ctx), seed=ctx.seed)
        # and used by a macro that has it
        ps = asm(ctx, define('mac', [x]) + define('outer', [(None, 'mac', args)]) + [(None, 'outer', [('int', 1)] * max(1, k))])
        compare(ctx, rep, ps, [Case('missing argument which the caller has', [], cls='err')], line_obs(ctx), seed=ctx.seed)
    return go


# bodies pasting
PASTE = {
    'operand name': [(None, 'fdb', [('id', ['go_', V(1)])])],
    'operand name, prefix': [(None, 'fdb', [('id', [V(1), '_end'])])],
    'operand name, middle': [(None, 'fdb', [('id', ['a', V(1), 'z'])])],
    'operand name, two': [(None, 'fdb', [('id', [V(1), V(2)])])],
    'label': [(('id', ['out', V(1)]), 'equ', [('int', 0x1234)])],
    'label and address': [(('id', [V(1), '_l']), 'fcb', [('int', 1)])],
    'string': [(None, 'fcc', [('text', ['<', V(1), '>'])])],
    'string, two': [(None, 'fcc', [('text', [V(2), V(1), V(2)])])],
    'string alone': [(None, 'fcc', [('text', [V(1)])])],
    'string length': [(None, 'fcn', [('text', ['ab', V(1)])]), (None, 'fcs', [('text', [V(1), 'c'])])],
    'instruction': [(None, ('id', ['ld', V(1)]), [imm, ('int', 5)])],
    'set': [(('id', ['out', V(1)]), 'set', [('int', 1)]), (('id', ['out', V(1)]), 'set', [('op', ord('+'), ('id', ['out', V(1)]), ('int', 1))])],
    'nested use': [(None, ('id', ['in', V(1)]), [V(2)])],
}
DEFS = ['go_foo0', 'foo0_end', 'afoo0z', 'foo0foo1', 'go_7', '7_end', 'a7z', '78', 'go_-3', '-3_end', 'a-3z', '-3-4', 'go_0', '0_end', 'a0z', '00',
        'go_x', 'x_end', 'axz', 'xy', 'go_', '_end', 'az', '', 'go_a', 'a_end', 'aaz', 'ab', 'foo08', '7foo1']


def paste(body, kind, kind2=None):
    def go(ctx, rep):
        args = [arg(ctx, kind, 0), arg(ctx, kind2 or kind, 1)]
        b = []
        for l, o, a in PASTE[body]:
            if a and a[0] is imm:
                a = [imm(ctx, a[1])]
            b.append((l, o, a))
        pre = [(lab(n), 'equ', [('int', 0x2000 + i)]) for i, n in enumerate(DEFS) if n]
        ok = kind not in ('float', 'list', 'empty') and (kind2 not in ('float', 'list', 'empty') or 'two' not in body)
        use = define('mac', b) + [BEFORE, (None, 'mac', args), AFTER]
        if not ok:
            compare(ctx, rep, asm(ctx, pre + use), [Case('cannot be pasted: %s' % kind, [], cls='err')], line_obs(ctx), seed=ctx.seed)
            return
        direct = sub_lines(b, args)
        names = []
        for l, o, a in direct:
            if l:
                x = l[1][0]
                names.append(x if type(x) is str else bytes(x[1]).decode())
        relate(ctx, rep, use, [BEFORE] + direct + [AFTER], 'pasted: %s' % kind, names, 0, pre)
    return go


def nesting(d, extra=0):
    """a chain of d macros each swapping its arguments and adding one, marking before and after the inner use"""
    def go(ctx, rep):
        a, b = v64('a'), v64('b')
        ls = []
        for i in range(d):
            body = [(None, 'fcb', [ident(1)])]
            if i + 1 < d:
                body += [(None, 'm%d' % (i + 1), [ident(2), ident(1)])]
            body += [(None, 'fcb', [ident(2)])]
            ls += define('m%d' % i, body)
        ps = asm(ctx, ls + [(None, 'm0', [('int', a), ('int', b)])])

        def exp(i, x, y):
            return [byte(x)] + (exp(i + 1, y, x) if i + 1 < d else []) + [byte(y)]
        compare(ctx, rep, ps, [Case('nesting', [], cls='ok', bytes=exp(0, a, b))], line_obs(ctx), seed=ctx.seed)
    return go


def tree_use(order):
    """a macro using two others in turn, with different argument counts"""
    def go(ctx, rep):
        a, b, c = v64('a'), v64('b'), v64('c')
        ls = define('one', [(None, 'fcb', [ident(1)])]) + define('two', [(None, 'fcb', [ident(2), ident(1)]), (None, 'one', [ident(2)]), (None, 'fcb', [ident(2)])]) + define('nil', [(None, 'nop', None)])
        body, want = [], []
        for o in order:
            if o == 'one':
                body.append((None, 'one', [ident(3)]))
                want.append(byte(c))
            elif o == 'two':
                body.append((None, 'two', [ident(2), ident(1)]))
                want += [byte(a), byte(b), byte(a), byte(a)]
            elif o == 'nil':
                body.append((None, 'nil', None))
                want.append(0x12)
            else:
                body.append((None, 'fcb', [ident(1), ident(3)]))
                want += [byte(a), byte(c)]
        ps = asm(ctx, ls + define('mac', body) + [(None, 'mac', [('int', a), ('int', b), ('int', c)]), AFTER])
        compare(ctx, rep, ps, [Case('uses in turn', [], cls='ok', bytes=want + [0xaf])], line_obs(ctx), seed=ctx.seed)
    return go


def recursion(n):
    """recursion ended by a condition within the depth limit"""
    def go(ctx, rep):
        body = [(None, 'if', [ident(1)]), (None, 'fcb', [ident(1)]), (None, 'rec', [('op', ord('-'), ident(1), ('int', 1))]), (None, 'fcb', [ident(1)]), (None, 'endif', None)]
        ps = asm(ctx, define('rec', body) + [(None, 'rec', [('int', n)])])
        want = list(range(n, 0, -1)) + list(range(1, n + 1))
        compare(ctx, rep, ps, [Case('bounded recursion', [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


def unbounded(kind):
    def go(ctx, rep):
        a = v64('a')
        inc = [(None, 'include', [('str', 'self')])]
        ctx.M.files = {b'self': list(b' include "self"\n')}
        ls = {'direct': define('rec', [(None, 'rec', None)]) + [(None, 'rec', None)],
              'mutual': define('rec', [(None, 'cer', [ident(1)])]) + define('cer', [(None, 'rec', [ident(1)])]) + [(None, 'rec', [('int', a)])],
              'with argument': define('rec', [(None, 'fcb', [ident(1)]), (None, 'rec', [ident(1)])]) + [(None, 'rec', [('int', a)])],
              'through include': define('rec', inc) + [(None, 'rec', None)],
              'tail': define('rec', [(None, 'nop', None), (None, 'if', [('int', 1)]), (None, 'rec', None), (None, 'endif', None)]) + [(None, 'rec', None)]}[kind]
        compare(ctx, rep, asm(ctx, ls), [Case('unbounded recursion', [], cls='err')], line_obs(ctx), seed=ctx.seed)
    return go


BADBODY = [(None, 'bogus', None), (None, 'fdb', [lab('nowhere')]), (lab('foo'), 'equ', [('int', 1)]), (lab('foo'), 'equ', [('int', 2)]), (None, 'rmb', [('int', -1)]), (None, 'include', [('str', 'nofile')]),
           (None, 'org', [('int', -1)]), (None, 'else', None), (None, 'fcb', [ident(9)]), (None, ('id', ['x', V(1)]), None), (('id', ['x', V(1)]), 'nop', None), (None, 'fcb', [('op', ord('/'), ('int', 1), ('int', 0))])]


def definition(i):
    """a definition alone does nothing, whatever its body"""
    def go(ctx, rep):
        body = BADBODY if i is None else [BADBODY[i]]
        o = v64('o', 0, 0x7000)
        ps = asm(ctx, [(None, 'org', [('int', o)])] + define('mac', body) + [(None, 'fdb', [('pc',)])])
        compare(ctx, rep, ps, [Case('definition only', [], cls='ok', org=('w', 32, mk(32, o.c, dict(o.t))), bytes=be(o, 2), **{'symbol foo': None, 'symbol mac': None})], obs(ctx, ('foo', 'mac')), seed=ctx.seed)
    return go


def nested_definition(variant):
    def go(ctx, rep):
        a = v64('a')
        inner = define('inner', [(None, 'fcb', [ident(1)])])
        outer = define('outer', [(None, 'fcb', [('int', 1)])] + inner + [(None, 'fcb', [('int', 2)])])
        use = lambda n: (None, n, [('int', a)])
        ls, want = {'inner unknown before': (outer + [use('inner')], None),
                    'inner after outer': (outer + [use('outer'), use('inner')], [1, 2, byte(a)]),
                    'outer twice': (outer + [use('outer'), use('outer')], None),
                    'definition only': (outer, []),
                    'three levels': (define('top', outer) + [use('top'), use('outer'), use('inner')], [1, 2, byte(a)]),
                    'in a conditional': ([(None, 'if', [('int', 1)])] + outer + [(None, 'else', None)] + outer + [(None, 'endif', None), use('outer'), use('inner')], [1, 2, byte(a)])}[variant]
        compare(ctx, rep, asm(ctx, ls), [Case('nested definition', [], cls='err') if want is None else Case('nested definition', [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


M_, E_, N_ = (lab('mac'), 'macro', None), (None, 'endm', None), (None, 'nop', None)


def diagnosed(what):
    def go(ctx, rep):
        ctx.M.files = {b'part': list(b'oth macro\n nop\n'), b'end': list(b' endm\n'), b'whole': list(b'oth macro\n nop\n endm\n')}
        inc = lambda f: (None, 'include', [('str', f)])
        P = {
            'redefinition': define('mac', [N_]) + define('mac', [N_]), 'redefinition after use': define('mac', [N_]) + [(None, 'mac', None)] + define('mac', []),
            'ENDM alone': [E_], 'ENDM twice': define('mac', [N_]) + [E_], 'ENDM in a use': define('mac', [N_]) + [(None, 'mac', None), E_],
            'unfinished': [M_, N_], 'unfinished at once': [M_], 'unfinished inner': [M_, (lab('in'), 'macro', None), E_], 'unfinished in a file': [inc('part'), N_], 'finished in another file': [M_, N_, inc('end')],
            'unfinished in a file, finished after': [inc('part'), E_], 'MACRO without a name': [(None, 'macro', None), N_, E_], 'numbered MACRO': [(('int', 1), 'macro', None), N_, E_],
            'unknown name': define('mac', [N_]) + [(None, 'mad', None)], 'prefix of the name': define('mac', [N_]) + [(None, 'ma', None)], 'extension of the name': define('mac', [N_]) + [(None, 'macr', None)],
        }
        compare(ctx, rep, asm(ctx, P[what]), [Case(what, [], cls='err')], line_obs(ctx), seed=ctx.seed)
    return go


def macro_in_file():
    def go(ctx, rep):
        ctx.M.files = {b'whole': list(b'oth macro\n fcb \\1\n endm\n')}
        a = v64('a')
        ps = asm(ctx, [(None, 'include', [('str', 'whole')]), (None, 'oth', [('int', a)])])
        compare(ctx, rep, ps, [Case('macro of an included file', [], cls='ok', bytes=[byte(a)])], line_obs(ctx), seed=ctx.seed)
    return go


def several(n):
    """n macros: each name finds its own body"""
    def go(ctx, rep):
        names = ['m', 'mm', 'mac', 'maca', 'amac', 'MAC', 'Mac', 'm1', 'm2', '_m', 'a.b', 'long_macro_name_with_many_characters', 'long_macro_name_with_many_characterz'][:n]
        ls = []
        for i, s in enumerate(names):
            ls += define(s, [(None, 'fcb', [('int', i), ident(1)])])
        vs = [v64('a%d' % i) for i in range(n)]
        ls += [(None, s, [('int', vs[i])]) for i, s in enumerate(names)][::-1]
        want = sum([[i, byte(vs[i])] for i in reversed(range(n))], [])
        compare(ctx, rep, asm(ctx, ls), [Case('several macros', [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


def label_on_use():
    def go(ctx, rep):
        o, a = v64('o', 0, 0x7000), v64('a')
        ps = asm(ctx, define('mac', [(None, 'fdb', [('pc',), lab('here')])]) + [(None, 'org', [('int', o)]), (lab('here'), 'mac', [('int', a)])])
        compare(ctx, rep, ps, [Case('label of a use', [], cls='ok', bytes=be(o, 2) * 2)], line_obs(ctx), seed=ctx.seed)
    return go


def passes():
    """expansion is the same in every pass"""
    def go(ctx, rep):
        from c11 import whole
        from outfmt import check_format, Block
        a = v64('a')
        prog = define('mac', [(None, 'fdb', [lab('later'), ident(1)])]) + [(None, 'mac', [('int', a)]), (None, 'mac', [('op', ord('+'), ('int', a), ('int', 1))]), (lab('later'), 'equ', [('int', a)])]
        ps = run_passes(ctx, [prog], None, ['-S', '-o', 'out'])
        a1 = mk(64, a.c + 1, dict(a.t))
        bs = [x for y in (a, a, a, a1) for x in (byte(y, 8), byte(y))]
        check_format(ctx, rep, ps, [([], whole([Block(0, bs)], None))], 'two passes')
    return go


def source():
    """through the scanner: the forms of positional variables in a complete program"""
    def go(ctx, rep):
        from c11 import whole
        from outfmt import check_format, Block
        ch = [inp('ch%d' % i, 8, 0x61, 0x7a) for i in range(2)]
        src = list(b'mac macro\n fcc "\\1-&1-\\{2}-&{2}"\n fcb \\2,\\{1},&{2}\n fcc "a\\3b"\nlab\\2 fdb lab\\2\n endm\n mac "') + ch + list(b'",12,"')
        src += [ch[1]] + list(b'"\n')
        ps = run_main(ctx, ['-S', '-o', 'out', 'in.s'], {'in.s': src})
        bs = ch + [45] + ch + list(b'-12-12') + [12] + ch + [12] + [97, ch[1], 98]
        n = len(bs)
        check_format(ctx, rep, ps, [([], whole([Block(0, [zx_(b) for b in bs] + [0, n])], None))], 'source text')
    return go


def big_(what):
    """counts, lengths and forms far from the usual ones"""
    def go(ctx, rep):
        a = v64('a', 0, 0x7fff)
        if what == 'long body':
            body = [(None, 'fcb', [('op', ord('+'), ident(1), ('int', i))]) for i in range(300)]
            ls, want = define('mac', body) + [(None, 'mac', [('int', a)])], [byte(mk(64, a.c + i, dict(a.t))) for i in range(300)]
        elif what == 'many uses':
            ls = define('mac', [(None, 'fcb', [ident(1), ident(2)])]) + [(None, 'mac', [('int', i & 255), ('int', a)]) for i in range(300)]
            want = sum([[i & 255, byte(a)] for i in range(300)], [])
        elif what == 'many macros':
            ns = ['m%d' % (i * 7919 % 100003) for i in range(150)]
            ls = sum([define(n, [(None, 'fcb', [('int', i), ident(1)])]) for i, n in enumerate(ns)], []) + [(None, n, [('int', a)]) for n in ns]
            want = sum([[i, byte(a)] for i in range(150)], [])
        elif what == 'long names':
            ns = ['n' * k + c for k in (7, 8, 15, 16, 31, 32, 63, 64, 100, 128, 255, 256) for c in 'al']
            ls = sum([define(n, [(None, 'fcb', [('int', i), ident(1)])]) for i, n in enumerate(ns)], []) + [(None, n, [('int', a)]) for n in ns]
            want = sum([[i, byte(a)] for i in range(len(ns))], [])
        elif what == 'long pasted names':
            ls, want = define('mac', [(('id', ['p', V(1), 'q', V(2)]), 'equ', [V(3)]), (None, 'fdb', [('id', ['p', V(1), 'q', V(2)])])]), []
            for i, (j, k) in enumerate(((1, 1), (10, 10), (60, 70), (127, 127), (1, 254), (254, 1), (300, 300))):
                x = mk(64, a.c + i, dict(a.t))
                ls += [(None, 'mac', [('str', 'x' * j), ('str', 'y' * k), ('int', x)]), (None, 'fdb', [lab('p' + 'x' * j + 'q' + 'y' * k)])]
                want += be(x, 2) * 2
        elif what == 'long strings':
            ls, want = define('mac', [(None, 'fcc', [('text', ['<', V(1), '|', V(2), '>'])])]), []
            for j, k in ((1, 1), (30, 34), (64, 64), (127, 128), (255, 1), (300, 500)):
                c = inp('c%d' % j, 8, 1, 255)
                ls += [(None, 'mac', [('str', [c] + [0x41] * j), ('str', [0x42] * k + [c])])]
                want += [0x3c, c] + [0x41] * j + [0x7c] + [0x42] * k + [c, 0x3e]
        elif what == 'many parts':
            args = [('str', 'ab'[i % 2] * (1 + i % 3)) for i in range(40)]
            ls = define('mac', [(None, 'fcc', [('text', sum([[V(i + 1), '-'] for i in range(40)], []))])]) + [(None, 'mac', args)]
            want = list(''.join(x[1] + '-' for x in args).encode())
        compare(ctx, rep, asm(ctx, ls), [Case(what, [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


NUMBERED = {'leading zero': ('\\{010}', 10), 'two zeros': ('\\{007}', 7), 'eight with a zero': ('\\{08}', 8), 'one digit': ('\\{9}', 9), 'two digits': ('\\{12}', 12), 'forty': ('\\{40}', 40), 'ampersand': ('&{33}', 33),
            'digit after digit': ('\\1', 1), 'nine': ('\\9', 9), 'ampersand nine': ('&9', 9)}


def numbered(k):
    """the number of a positional variable, through the scanner"""
    def go(ctx, rep):
        from c11 import whole
        from outfmt import check_format, Block
        text, n = NUMBERED[k]
        vals = [(i * 37 + 11) & 255 for i in range(45)]
        src = 'mac macro\n fcb %s\n fcc "<%s0>"\n endm\n mac %s\n' % (text.replace('&9', '&{9}'), text, ','.join(map(str, vals)))
        ps = run_main(ctx, ['-S', '-o', 'out', 'in.s'], {'in.s': list(src.encode())})
        check_format(ctx, rep, ps, [([], whole([Block(0, [vals[n - 1]] + list(b'<%d0>' % vals[n - 1]))], None))], 'variable %s' % text)
    return go


def zx_(b):
    return b


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'main')
    deep = tier == 'thorough'
    out = []
    for b in BODIES:
        for k in ('int', 'float', 'str', 'empty string', 'word', 'reg', 'acc', 'empty', 'imm', 'symbol', 'undefined', 'expr', 'list'):
            if k == 'undefined' and b in ('no variable', 'empty body'):
                continue        # an argument not used: whether it is diagnosed is not specified
            if k == 'imm' and b in ('equ', 'set', 'expression', 'lda'):
                # only the value of an argument is passed; its prefix belongs to the use
                continue
            out.append(('%s by value: %s' % (b, k), by_value(b, k)))
    for op, k1, k2 in (('lda', 'small', 'reg'), ('leax', 'int', 'reg'), ('tfr', 'acc', 'acc'), ('exg', 'reg', 'reg'), ('pshs', 'reg', 'acc'), ('fdb', 'int', 'int'), ('fcc', 'str', 'int'), ('fill', 'int', 'const'), ('oim', 'int', 'int')):
        for order in ((1, 2), (2, 1), (1, 1), (2, 2)):
            isa = 1 if op == 'oim' else 0
            if op == 'fill' and order[1] == 1:
                continue        # an abstract count
            out.append(('%s of two arguments in order %s' % (op, order), two_args(op, k1, k2, order, isa)))
    for n in (1, 2, 3, 8, 9, 10, 11, 12) + (17, 21, 33, 40, 65) + ((101, 140, 270) if deep else ()):
        for k in {1, n, (n + 1) // 2}:
            out.append(('%d arguments, variable %d' % (n, k), positions(n, k)))
    for how in ('value', 'bare', 'expression', 'name', 'string', 'opcode', 'label'):
        for n, k in ((None, 1), (1, 2), (2, 3), (2, 10), (9, 10), (2, 0), (3, 100)):
            out.append(('missing argument %d of %s as %s' % (k, n, how), missing(n, k, how)))
    KP = ('word', 'const', 'negative', 'zero', 'reg', 'acc', 'empty string', 'big')
    for b in PASTE:
        for k in KP + ('float', 'list'):
            if k == 'big' and not b.startswith('string'):
                continue
            if b in ('instruction', 'nested use') and k in ('const', 'negative', 'zero', 'word', 'empty string', 'float', 'list', 'reg') and b == 'nested use':
                continue
            out.append(('%s: %s' % (b, k), paste(b, k)))
        if 'string' in b:
            out.append(('%s: any characters' % b, paste(b, 'str')))
            out.append(('%s: any characters and number' % b, paste(b, 'str', 'const')))
        if 'two' in b:
            out.append(('%s: mixed' % b, paste(b, 'word', 'const')))
            out.append(('%s: mixed, other way' % b, paste(b, 'const', 'word')))
    for d in (1, 2, 3, 4, 5, 6, 7):
        out.append(('nesting %d' % d, nesting(d)))
    for n in (1, 2, 3):
        for order in itertools.product(('one', 'two', 'nil', 'own'), repeat=n):
            out.append(('in turn: %s' % ', '.join(order), tree_use(order)))
    for n in range(0, 7):
        out.append(('recursion %d' % n, recursion(n)))
    for k in ('direct', 'mutual', 'with argument', 'through include', 'tail'):
        out.append(('unbounded recursion, %s' % k, unbounded(k)))
    for i in [None] + list(range(len(BADBODY))):
        out.append(('definition with body %s' % i, definition(i)))
    for v in ('inner unknown before', 'inner after outer', 'outer twice', 'definition only', 'three levels', 'in a conditional'):
        out.append(('nested definition: %s' % v, nested_definition(v)))
    for w in ('redefinition', 'redefinition after use', 'ENDM alone', 'ENDM twice', 'ENDM in a use', 'unfinished', 'unfinished at once', 'unfinished inner', 'unfinished in a file', 'finished in another file',
              'unfinished in a file, finished after', 'MACRO without a name', 'numbered MACRO', 'unknown name', 'prefix of the name', 'extension of the name'):
        out.append((w, diagnosed(w)))
    out.append(('macro in an included file', macro_in_file()))
    for n in (2, 5, 13):
        out.append(('%d macros' % n, several(n)))
    out.append(('label on a use', label_on_use()))
    out.append(('two passes', passes()))
    out.append(('source text', source()))
    for w in ('long body', 'many uses', 'many macros', 'long names', 'long pasted names', 'long strings', 'many parts'):
        out.append((w, big_(w)))
    for k in NUMBERED:
        out.append(('variable number: %s' % k, numbered(k)))
    out += embed.subjects('C18', tier)
    return out
