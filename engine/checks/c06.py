"""Abstract interpretation of the evaluation of every operator on every combination of operand kinds
(64-bit integer, double, string, register, nothing, list), with abstract integers, doubles and
string characters.  The kind and value given to a symbol defined by the expression must equal the
documented result in normal form (integer results as linear congruences or operator terms over the inputs,
floating results as operator terms), with each trace partition compared only under its own guards;
operations without a defined result must be errors and leave the symbol without a value."""
import embed
from common import *
RULE = 'subject = (operator, operand kinds); obligation = (trace partition, case of the documented result)'
W = 64
REL = {'<': '<', 'LE': '<=', '>': '>', 'GE': '>=', 'EQ': '==', 'NE': '!='}
FP = {'<': 'olt', '<=': 'ole', '>': 'ogt', '>=': 'oge', '==': 'oeq', '!=': 'une'}
BIN = ['*', '/', '+', '-', '<', 'LE', '>', 'GE', 'EQ', 'NE', '%', 'SHL', 'SHR', '&', '^', '|', 'LAND', 'LOR']
KINDS = ['int', 'const', 'float', 'str', 'str1', 'longstr', 'str4', 'reg', 'empty', 'list', 'undef']


def code(ctx, op):
    if len(op) == 1:
        return ord(op)
    E = ctx.d.enums
    if op not in E:
        from drv import AnchorMissing
        raise AnchorMissing('token %s' % op)
    return E[op]


def operand(kind, side):
    """(spec, numeric value ('int', v) / ('float', f) / None, string or None)"""
    if kind == 'int':
        v = v64(side)
        return ('int', v), ('int', v), None
    if kind == 'const':
        return ('int', {'a': 21, 'b': 5}[side]), ('int', {'a': 21, 'b': 5}[side]), None
    if kind == 'float':
        f = fin(side + 'f')
        return ('float', f), ('float', f), None
    if kind in ('str', 'str1', 'longstr', 'str4'):
        s = {'str': ['?', '?'], 'str1': [ord('M')], 'longstr': list(b'wxyz') + ['?'], 'str4': ['?'] * 4}[kind]
        bs = [inp('%s%d' % (side, i), 8, 1, 255) if c == '?' else c for i, c in enumerate(s)]
        v = 0
        for b in bs[-4:]:
            v = add(64, mulc(64, v, 256) if type(v) is not int else v * 256, b if type(b) is int else mk(64, b.c, dict(b.t)))
        return ('str', bs), ('int', v), bs
    if kind == 'reg':
        return reg('X'), None, None
    if kind == 'empty':
        return ('empty',), None, None
    if kind == 'list':
        return ('arr', [('int', 1), ('int', 2)]), None, None
    if kind == 'undef':
        return ('id', ['nowhere']), None, None


def want_int(c, n, g, v):
    c.append(Case(n, g, cls='ok', kind='int', value=('w', W, v)))


def want_float(c, n, g, v):
    c.append(Case(n, g, cls='ok', kind='float', value=v))


def bad(c, n, g=()):
    c.append(Case(n, list(g), cls='err', defined=False))


def as_int(n):
    return n[1] if n[0] == 'int' else f2i(n[1])


def as_float(n):
    return n[1] if n[0] == 'float' else i2f(n[1])


def ilin(v, lo, hi):
    """guard on an integer operand that may be abstract; list of fact lists ([] when impossible)"""
    if type(v) is int:
        s = v - (1 << 64) if v >> 63 else v
        return [[]] if lo <= s <= hi else []
    if len(v.t) == 1 and v.t[0][0].kind == 'f2i' and v.t[0][1] == 1 and v.c == 0:
        # the conversion result is held unsigned
        out = []
        if lo < 0:
            out.append([lin(v, lo + (1 << 64), min(hi, -1) + (1 << 64))])
        if hi >= 0:
            out.append([lin(v, max(lo, 0), hi)])
        return out
    return [[lin(v, lo, hi)]]


def zero(v):
    return ilin(v, 0, 0), ilin(v, MIN64, -1) + ilin(v, 1, MAX64)


def expect2(ctx, op, x, y):
    """cases for a binary operator on numbers x, y"""
    c = []
    both_int = x[0] == 'int' and y[0] == 'int'
    a, b = x[1], y[1]
    if op in ('*', '+', '-') and both_int:
        want_int(c, 'integer', [], {'*': lambda: bop(ctx, 'mul', a, b), '+': lambda: add(64, a, b), '-': lambda: add(64, a, b, -1)}[op]())
        return c
    if op in ('*', '+', '-'):
        want_float(c, 'floating', [], fop({'*': 'fmul', '+': 'fadd', '-': 'fsub'}[op], as_float(x), as_float(y)))
        return c
    if op == '/':
        fa, fb = as_float(x), as_float(y)
        if type(fb) is float:
            want_float(c, 'quotient', [], fop('fdiv', fa, fb))
        else:
            bad(c, 'by zero', [fcond('oeq', fb, 0.0, True)])
            want_float(c, 'quotient', [fcond('oeq', fb, 0.0, False)], fop('fdiv', fa, fb))
        return c
    if op in REL:
        p = REL[op]
        if both_int:
            if type(a) is int and type(b) is int:
                want_int(c, 'constant', [], int(eval('a%sb' % p)))
                return c
            t, f = rel(p, a, b)
            for i, g in enumerate(t):
                want_int(c, 'true %d' % i, g, 1)
            for i, g in enumerate(f):
                want_int(c, 'false %d' % i, g, 0)
        else:
            for truth in (True, False):
                want_int(c, str(truth), [fcond(FP[p], as_float(x), as_float(y), truth)], int(truth))
        return c
    a, b = as_int(x), as_int(y)
    if op in ('&', '|', '^'):
        want_int(c, 'bits', [], bop(ctx, {'&': 'and', '|': 'or', '^': 'xor'}[op], a, b))
    elif op == '%':
        if type(b) is int:
            if b in (0, (1 << 64) - 1):
                bad(c, 'by zero') if b == 0 else want_int(c, 'by minus one', [], 0)
            elif type(a) is not int and a.t[0][0].kind == 'f2i':
                want_int(c, 'remainder', [], S(64, 0, ((atom('bin', ('srem', 64, a, b), 0, (1 << 64) - 1), 1),)))
            else:
                want_int(c, 'remainder', [], bop(ctx, 'srem', a, b))
            return c
        z, nz = zero(b)
        for g in z:
            bad(c, 'by zero', g)
        for i, g in enumerate(ilin(b, -1, -1)):
            want_int(c, 'by minus one', g, 0)
        for i, g in enumerate(ilin(b, 1, MAX64) + ilin(b, MIN64, -2)):
            want_int(c, 'remainder %d' % i, g, S(64, 0, ((atom('bin', ('srem', 64, a, b), 0, (1 << 64) - 1), 1),)))
    elif op in ('SHL', 'SHR'):
        if type(b) is int:
            if not 0 <= b <= 63:
                bad(c, 'bad count')
                return c
            want_int(c, 'shift', [], bop(ctx, 'shl' if op == 'SHL' else 'ashr', a, b))
            return c
        for g in ilin(b, 0, 63):
            want_int(c, 'shift', g, S(64, 0, ((atom('bin', ('shl' if op == 'SHL' else 'ashr', 64, a, b), 0, (1 << 64) - 1), 1),)))
        for g in ilin(b, MIN64, -1) + ilin(b, 64, MAX64):
            bad(c, 'bad count', g)
    else:
        za, na = zero(a)
        zb, nb = zero(b)
        for la, va in ((za, 0), (na, 1)):
            for lb, vb in ((zb, 0), (nb, 1)):
                for g in la:
                    for h in lb:
                        want_int(c, '%d%d' % (va, vb), g + h, (va and vb) if op == 'LAND' else (va or vb))
    return c


def strcases(p, s, t):
    """comparison of two strings of known length with abstract characters"""
    c = []
    n = min(len(s), len(t))

    def res(sign):
        return int(eval('%d%s0' % (sign, p)))
    pre = []
    for i in range(n):
        if type(s[i]) is int and type(t[i]) is int:
            if s[i] != t[i]:
                want_int(c, 'char %d' % i, pre, res(-1 if s[i] < t[i] else 1))
                return c
            continue
        d = lform((s[i] if type(s[i]) is int else 0) - (t[i] if type(t[i]) is int else 0),
                  *([(s[i], 1)] if type(s[i]) is not int else []), *([(t[i], -1)] if type(t[i]) is not int else []))
        want_int(c, 'char %d less' % i, pre + [lin(d, -256, -1)], res(-1))
        want_int(c, 'char %d greater' % i, pre + [lin(d, 1, 256)], res(1))
        pre = pre + [lin(d, 0, 0)]
    want_int(c, 'same start', pre, res(0 if len(s) == len(t) else -1 if len(s) < len(t) else 1))
    return c


def binary(op, kx, ky):
    def go(ctx, rep):
        sx, nx, tx = operand(kx, 'a')
        sy, ny, ty = operand(ky, 'b')
        if nx is None or ny is None:
            cases = []
            bad(cases, 'unusable kind')
        elif tx is not None and ty is not None and op in REL:
            cases = strcases(REL[op], tx, ty)
        else:
            cases = expect2(ctx, op, nx, ny)
        run(ctx, rep, ('op', code(ctx, op), sx, sy), cases)
    return go


def run(ctx, rep, spec, cases, pre=()):
    ps = asm(ctx, list(pre) + [(('id', ['r']), 'equ', [spec])])
    compare(ctx, rep, ps, cases, value_obs(ctx), seed=ctx.seed, need_cover=False)
    # the expression is also a source of bytes: what is not defined must not emit silently either


def unary(op, k):
    def go(ctx, rep):
        s, n, _ = operand(k, 'a')
        c = []
        if n is None:
            bad(c, 'unusable kind')
        elif op == '+':
            (want_int if n[0] == 'int' else want_float)(c, 'same', [], n[1])
        elif op == '-':
            if n[0] == 'int':
                want_int(c, 'negated', [], add(64, 0, n[1], -1))
            else:
                want_float(c, 'negated', [], F('fneg', (n[1],)))
        elif op == '~':
            want_int(c, 'complement', [], add(64, (1 << 64) - 1, as_int(n), -1))
        else:
            z, nz = zero(as_int(n))
            for g in z:
                want_int(c, 'zero', g, 1)
            for g in nz:
                want_int(c, 'non-zero', g, 0)
        run(ctx, rep, ('op', ord(op), s), c)
    return go


def ternary(k, kb):
    def go(ctx, rep):
        s, n, _ = operand(k, 'a')
        x, nx, tx = operand(kb, 'b')
        z = v64('z')
        c = []
        if n is None:
            bad(c, 'unusable condition')
        else:
            zz, nz = zero(as_int(n))
            for g in nz:
                if tx is not None:
                    c.append(Case('true', g, cls='ok', kind='string', value=tx))
                elif nx is None:
                    c.append(Case('true', g, cls=ANY, value=ANY))
                else:
                    (want_int if nx[0] == 'int' else want_float)(c, 'true', g, nx[1])
            for g in zz:
                want_int(c, 'false', g, z)
        run(ctx, rep, ('op', ord('?'), s, x, ('int', z)), c)
    return go


def nested(which):
    """composition: operands that are themselves results"""
    def go(ctx, rep):
        a, b, d = v64('a'), v64('b'), v64('d')
        f = fin('f')
        P, M_, T, D_ = ord('+'), ord('-'), ord('*'), ord('/')
        i = lambda v: ('int', v)
        c = []
        pre = []
        if which == 0:
            sp = ('op', M_, ('op', P, i(a), i(b)), ('op', M_, ('op', T, i(3), i(d))))
            want_int(c, 'a+b-(-3d)', [], add(64, add(64, a, b), mulc(64, d, 3)))
        elif which == 1:
            sp = ('op', P, ('op', T, ('float', f), i(a)), ('op', D_, i(b), i(4)))
            want_float(c, 'f*a+b/4', [], fop('fadd', fop('fmul', f, i2f(a)), fop('fdiv', i2f(b), 4.0)))
        elif which == 2:
            pre = [(('id', ['s']), 'equ', [('op', P, i(a), i(1))]), (('id', ['t']), 'equ', [('op', T, ('id', ['s']), i(2))])]
            sp = ('op', M_, ('id', ['t']), ('op', P, ('id', ['s']), ('id', ['s'])))
            want_int(c, 'through symbols', [], 0)
        elif which == 3:
            sp = ('op', P, ('op', code(ctx, 'SHL'), i(a), i(8)), ('op', ord('&'), i(b), i(255)))
            want_int(c, 'a<<8+b&255', [], add(64, mulc(64, a, 256), and_const(64, b, 255)))
        elif which == 4:
            loc = v64('loc', 0, 65535)
            pre = [(None, 'org', [i(loc)])]
            sp = ('op', M_, ('pc',), i(a))
            want_int(c, '*-a', [], add(64, loc, a, -1))
        elif which == 5:
            sp = ('op', ord('!'), ('op', ord('!'), i(a)))
            want_int(c, 'zero', [lin(a, 0, 0)], 0)
            want_int(c, 'positive', [lin(a, 1, MAX64)], 1)
            want_int(c, 'negative', [lin(a, MIN64, -1)], 1)
        elif which == 6:
            sp = ('op', ord('-'), ('op', ord('~'), i(a)))
            want_int(c, '-~a', [], add(64, a, 1))
        run(ctx, rep, sp, c, pre)
    return go


def keeps(op, kx, ky=None, third=False):
    """an operator leaves its operands as they were: a symbol used as an operand still has its value afterwards"""
    def go(ctx, rep):
        sx, nx, tx = operand(kx, 'a')
        ops = [('p', sx, nx, tx)]
        if ky:
            sy, ny, ty = operand(ky, 'b')
            ops.append(('q', sy, ny, ty))
        lines = [(('id', [n]), 'equ', [sp]) for n, sp, _, _ in ops]
        e = ('op', code(ctx, op)) + tuple(('id', [n]) for n, *_ in ops) + ((('id', ['p']),) if third else ())
        ps = asm(ctx, lines + [(('id', ['r']), 'equ', [e])])
        for n, _, num, s in ops:
            w = {'kind': 'string', 'value': s} if s is not None else {'kind': 'int', 'value': ('w', W, num[1])} if num[0] == 'int' else {'kind': 'float', 'value': num[1]}
            o = value_obs(ctx, n)
            compare(ctx, rep, ps, [Case('operand %s unchanged' % n, [], cls=ANY, **w)], o, seed=ctx.seed, need_cover=False)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'symbol_try_get')
    out = []
    for op in BIN:
        for x in KINDS:
            for y in KINDS:
                out.append(('%s %s %s' % (x, op, y), binary(op, x, y)))
    for op in '+-~!':
        for x in KINDS:
            out.append(('%s %s' % (op, x), unary(op, x)))
    for x in KINDS:
        for y in KINDS:
            out.append(('%s ? %s : int' % (x, y), ternary(x, y)))
    some = ['int', 'const', 'float', 'str', 'longstr', 'str4']
    for x in some:
        for op in '+-~!':
            out.append(('%s %s, operand kept' % (op, x), keeps(op, x)))
        for y in some:
            for op in BIN:
                out.append(('%s %s %s, operands kept' % (x, op, y), keeps(op, x, y)))
            out.append(('%s ? %s, operands kept' % (x, y), keeps('?', x, y, True)))
    for i in range(7):
        out.append(('nested %d' % i, nested(i)))
    out += embed.subjects('C06', tier)
    return out
