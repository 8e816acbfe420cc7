"""Abstract values.

An integer of width w is either a Python int in [0,2^w) or S: a linear form over atoms,
modulo 2^w.  An atom denotes a mathematical integer with a range.  Bit operations with
constants, truncations and extensions are all linear over "U" atoms (U_m(L) = L mod 2^m),
so that equal bit manipulations have equal normal forms however they are written.
"""
import math

_intern = {}
_count = [0]


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', '_h')

    def __init__(self, kind, args, lo, hi):
        _count[0] += 1
        self.id = _count[0]
        self.kind = kind
        self.args = args
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        if self.kind == 'in':
            return self.args[0]
        if self.kind in ('U', 'D'):
            return '%s%s(%s)' % (self.kind, ','.join(map(str, self.args[:-1])), fmt_lf(*self.args[-1]))
        return '%s(%s)' % (self.kind, ','.join(map(str, self.args)))


def atom(kind, args, lo, hi):
    k = (kind, args)
    a = _intern.get(k)
    if a is None:
        a = Atom(kind, args, lo, hi)
        _intern[k] = a
    return a


def fmt_lf(c, terms):
    s = ' + '.join(('%d*%r' % (k, a)) if k != 1 else repr(a) for a, k in terms)
    if not s:
        return str(c)
    return s + (' + %d' % c if c else '')


class S:
    """linear form mod 2^w"""
    __slots__ = ('w', 'c', 't', '_hash')

    def __init__(self, w, c, t):
        self.w = w
        self.c = c
        self.t = t
        self._hash = None

    def __eq__(self, o):
        return type(o) is S and self.w == o.w and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        h = self._hash
        if h is None:
            h = self._hash = hash((self.w, self.c, tuple((a.id, k) for a, k in self.t)))
        return h

    def __repr__(self):
        return '<i%d %s>' % (self.w, fmt_lf(self.c, self.t))


class F:
    """symbolic double"""
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __eq__(self, o):
        return type(o) is F and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.op, self.args))

    def __repr__(self):
        return 'F:%s(%s)' % (self.op, ','.join(map(repr, self.args)))


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Parts:
    """a register holding several cells of a structure (argument and return coercion): bytes of each
    part are kept as they are; no arithmetic"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return type(o) is Parts and self.parts == o.parts

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'parts%r' % (self.parts,)

    def sub(self, off, n):
        """value of the n bytes at off, or None if that cuts a cell"""
        for po, sz, v in self.parts:
            if po == off and sz == n:
                return v
        ps = [(po - off, sz, v) for po, sz, v in self.parts if po >= off and po + sz <= off + n]
        return Parts(ps) if sum(p[1] for p in ps) == n else None


class Agg:
    """first-class structure value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return type(o) is Agg and self.v == o.v

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'agg%r' % (self.v,)


class Cond:
    """undecided i1"""
    __slots__ = ('kind', 'data', 'neg')

    def __init__(self, kind, data, neg=False):
        self.kind = kind
        self.data = data
        self.neg = neg

    def __repr__(self):
        return 'Cond(%s,%s,%s)' % (self.kind, self.data, self.neg)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off      # python int (signed) or S of width 64

    def __eq__(self, x):
        return type(x) is Ptr and self.o == x.o and self.off == x.off

    def __ne__(self, x):
        return not self.__eq__(x)

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return '&%s+%s' % (self.o, self.off)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def symm(k, w):
    """coefficient into the symmetric range"""
    k &= (1 << w) - 1
    if k > (1 << (w - 1)):
        k -= 1 << w
    return k


def v2(k):
    return (k & -k).bit_length() - 1 if k else 1 << 30


def mk(w, c, terms):
    """terms: dict atom->coef. normalise to int or S."""
    mask = (1 << w) - 1
    work = list(terms.items())
    out = {}
    n = 0
    while work:
        a, k = work.pop()
        k = symm(k, w)
        if k == 0:
            continue
        n += 1
        if a.kind == 'U':
            m, lf = a.args
            if v2(k) + m >= w:
                c += k * lf[0]
                for b, kb in lf[1]:
                    work.append((b, k * kb))
                continue
        elif a.kind == 'D':
            kk, m, lf = a.args
            need = w - v2(k)
            if v2(k) >= kk:
                # 2^kk * D(kk,m,L) = U_m(L) - U_kk(L)
                q = k >> kk
                for mm, sg in ((m, 1), (kk, -1)):
                    u = mkU(mm, lf[0], dict(lf[1]))
                    if type(u) is int:
                        c += sg * q * u
                    else:
                        c += sg * q * u[0]
                        for b, kb in u[1]:
                            work.append((b, sg * q * kb))
                continue
            if kk + need < m:
                d = mkD(kk, kk + need, lf[0], dict(lf[1]))
                c += k * d[0]
                for b, kb in d[1]:
                    work.append((b, k * kb))
                continue
        nk = symm(out.get(a, 0) + k, w)
        if nk:
            out[a] = nk
        else:
            out.pop(a, None)
    c &= mask
    if not out:
        return c
    return S(w, c, tuple(sorted(out.items(), key=lambda x: x[0].id)))


def hull_terms(c, terms):
    lo = hi = c
    for a, k in terms:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return lo, hi


def mkU(m, c, terms):
    """integer linear form (c, terms-tuple) for (c+terms) mod 2^m, exact"""
    v = mk(m, c, terms)
    if type(v) is int:
        return (v, ())
    lo, hi = hull_terms(v.c, v.t)
    top = 1 << m
    if hi - lo < top:
        q = lo >> m
        if q == hi >> m:
            return (v.c - q * top, v.t)
    a = _intern.get(('U', (m, (v.c, v.t))))
    if a is None:
        a = atom('U', (m, (v.c, v.t)), 0, top - 1)
        SIBLINGS.setdefault((m, v.t), []).append(a)
    return (0, ((a, 1),))


# residues of forms that differ by a constant
SIBLINGS = {}


def mkD(k, m, c, terms):
    """integer lf for bits k..m-1 of form"""
    if m <= k:
        return (0, ())
    u = mkU(m, c, terms)
    if not u[1]:
        return (u[0] >> k, ())
    # exact division when everything is a multiple of 2^k
    if u[0] % (1 << k) == 0 and all(kk % (1 << k) == 0 for a, kk in u[1]):
        return (u[0] >> k, tuple((a, kk >> k) for a, kk in u[1]))
    # constant quotient
    lo, hi = hull_terms(u[0], u[1])
    if lo >> k == hi >> k:
        return (lo >> k, ())
    # nested D: D(k, m, 1*D(k2,m2,L) + 0)
    if u[0] == 0 and len(u[1]) == 1 and u[1][0][1] == 1 and u[1][0][0].kind == 'D':
        k2, m2, lf = u[1][0][0].args
        return mkD(k2 + k, min(m2, k2 + m), lf[0], dict(lf[1]))
    # u has no bits beyond its own width
    if u[0] == 0 and len(u[1]) == 1 and u[1][0][1] == 1 and u[1][0][0].kind == 'U' and u[1][0][0].args[0] < m:
        m, lf = u[1][0][0].args
        return mkD(k, m, lf[0], dict(lf[1]))
    if lo >= 0 and hi.bit_length() < m:
        m = hi.bit_length()
        c, terms = u[0], dict(u[1])
    # floor((2^k*A + B) / 2^k) with 0 <= B < 2^k  ->  A
    A = {}
    B = []
    ca = u[0] >> k
    cb = u[0] - (ca << k)
    for a, kk in u[1]:
        if kk % (1 << k) == 0:
            A[a] = kk >> k
        else:
            B.append((a, kk))
    if A:
        lo, hi = hull_terms(cb, B)
        if lo >> k == hi >> k:
            return (ca + (lo >> k), tuple(sorted(A.items(), key=lambda x: x[0].id)))
    v = mk(m, c, terms)
    lf = (v.c, v.t)
    hi = (1 << (m - k)) - 1
    ulo, uhi = hull_terms(u[0], u[1])
    return (0, ((atom('D', (k, m, lf), max(0, ulo >> k), min(hi, uhi >> k)), 1),))


def hex_digit(lf, upper=True):
    """character for a form known to lie in 0..15"""
    if not lf[1]:
        return b'0123456789ABCDEF'[lf[0]] if upper else b'0123456789abcdef'[lf[0]]
    return S(8, 0, ((atom('hex', (lf, upper), 48, 70 if upper else 102), 1),))


def hex_of(b):
    """(form of the nibble, upper) when this byte is a hexadecimal digit, abstract or not; None otherwise"""
    if type(b) is S:
        if b.w >= 8 and b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1 and b.t[0][0].kind == 'hex':
            return b.t[0][0].args
        return None
    i = b'0123456789ABCDEF'.find(b & 255)
    return ((i, ()), True) if i >= 0 else None


def merge_hex(toks):
    """pairs of abstract hexadecimal digits, however they were produced, as %02X fields"""
    def sym(t):
        if t[0] == 'byte':
            return type(t[1]) is S and hex_of(t[1]) is not None
        return t[0] == 'num' and t[1] in 'xX' and not t[2] and t[3] <= 1 and t[4] is None and nib(t) is not None

    def nib(t):
        if t[0] == 'byte':
            return hex_of(t[1])
        if t[0] != 'num' or t[1] not in 'xX':
            return None
        lf = u_lf(t[6], t[5])
        lo, hi = hull_terms(*lf)
        return (lf, t[1] == 'X') if 0 <= lo and hi <= 15 else None

    def conc(t):
        return t[0] == 'byte' and type(t[1]) is int and hex_of(t[1]) is not None

    def low(t):
        t = nib(t)[0][1]
        return not (len(t) == 1 and t[0][0].kind == 'D' and t[0][0].args[0] % 8 == 4)
    if not any(map(sym, toks)):
        return toks
    out, i, n = [], 0, len(toks)

    def field(a, b):
        (h, u), (l, v) = nib(a), nib(b)
        terms = {}
        for a_, k in h[1]:
            terms[a_] = 16 * k
        for a_, k in l[1]:
            terms[a_] = terms.get(a_, 0) + k
        v = mk(8, 16 * h[0] + l[0], terms)
        if len(h[1]) == len(l[1]) == 1 and h[0] == l[0] == 0 and h[1][0][1] == l[1][0][1] == 1:
            p, q = h[1][0][0], l[1][0][0]
            if p.kind == q.kind == 'D' and p.args[2] == q.args[2] and q.args[1] == p.args[0] and p.args[1] - q.args[0] <= 8:
                d = mkD(q.args[0], p.args[1], p.args[2][0], dict(p.args[2][1]))
                v = mk(8, d[0], dict(d[1]))
        if type(v) is int:
            return [('byte', c) for c in b'%02X' % v]
        return [('num', 'X' if u and nib(b)[1] else 'x', '0', 2, None, 8, v)]
    while i < n:
        t = toks[i]
        if not sym(t):
            out.append(t)
            i += 1
        elif low(t) and out and conc(out[-1]) and not (i + 1 < n and sym(toks[i + 1]) and low(toks[i + 1])):
            out[-1:] = field(out[-1], t)
            i += 1
        elif i + 1 < n and (sym(toks[i + 1]) or conc(toks[i + 1])):
            out += field(t, toks[i + 1])
            i += 2
        elif out and conc(out[-1]):
            out[-1:] = field(out[-1], t)
            i += 1
        else:
            out.append(t)
            i += 1
    return out


def lf_of(v):
    """(c, dict) of a width value"""
    if type(v) is int:
        return v, {}
    return v.c, dict(v.t)


def s_const_add(v, k):
    if type(v) is int:
        raise TypeError
    return S(v.w, (v.c + k) & ((1 << v.w) - 1), v.t)


def add(w, a, b, sb=1):
    ca, ta = lf_of(a)
    cb, tb = lf_of(b)
    for x, k in tb.items():
        ta[x] = ta.get(x, 0) + sb * k
    return mk(w, ca + sb * cb, ta)


def mulc(w, a, k):
    c, t = lf_of(a)
    return mk(w, c * k, {x: kk * k for x, kk in t.items()})


def trunc(v, w):
    if type(v) is int:
        return v & ((1 << w) - 1)
    return mk(w, v.c, dict(v.t))


def from_lf(w, lf):
    return mk(w, lf[0], dict(lf[1]))


def u_lf(v, w):
    """exact integer lf for the unsigned reading, introducing a U atom if needed"""
    c, t = lf_of(v)
    return mkU(w, c, t)


def s_lf(v, w):
    c, t = lf_of(v)
    h = 1 << (w - 1)
    # prefer direct form
    lo, hi = hull_terms(c, t.items())
    if hi - lo < (1 << w):
        q = (lo + h) >> w
        if q == (hi + h) >> w:
            return (c - q * (1 << w), tuple(sorted(t.items(), key=lambda x: x[0].id)))
    u = mkU(w, c + h, t)
    return (u[0] - h, u[1])


def and_const(w, v, mask):
    """v & mask for constant mask, as width-w value"""
    mask &= (1 << w) - 1
    if type(v) is int:
        return v & mask
    if mask == (1 << w) - 1:
        return v
    c, t = lf_of(v)
    rc = 0
    rt = {}
    i = 0
    while i < w:
        if not mask >> i & 1:
            i += 1
            continue
        j = i
        while j < w and mask >> j & 1:
            j += 1
        # bits i..j-1 : U_j - U_i
        for m, sg in ((j, 1), (i, -1)):
            if m == 0:
                continue
            u = mkU(m, c, t)
            rc += sg * u[0]
            for a, k in u[1]:
                rt[a] = rt.get(a, 0) + sg * k
        i = j
    return mk(w, rc, rt)


def possible_bits(w, v):
    """mask of bits that may be one (unsigned reading), conservative"""
    if type(v) is int:
        return v
    full = (1 << w) - 1
    lo, hi = hull_terms(v.c, v.t)
    if lo < 0 or hi > full:
        m = full
    else:
        m = (1 << hi.bit_length()) - 1
    tz = min([v2(k) + atom_tz(a) for a, k in v.t] + [v2(v.c) if v.c else 64])
    return m & ~((1 << min(tz, w)) - 1)


def atom_tz(a):
    return 0


# ---- concrete evaluation of atoms under a valuation (used only to confirm witnesses) ----

def f2i_const(f, w, signed):
    """the machine's conversion: outside the range of the type (undefined in C) the "integer indefinite" value"""
    e = max(w, 32) if signed else 64
    i = int(f) if f == f and abs(f) < 2.0 ** 65 else 1 << 65
    if not (-(1 << (e - 1)) <= i < (1 << (e - 1)) or not signed and 0 <= i < (1 << 64)):
        i = 1 << (e - 1)
    return i & ((1 << w) - 1)


def ev_atom(a, val):
    r = val.get(a)
    if r is not None:
        return r
    k = a.kind
    if k == 'U':
        r = ev_lf(a.args[1], val) & ((1 << a.args[0]) - 1)
    elif k == 'D':
        r = (ev_lf(a.args[2], val) & ((1 << a.args[1]) - 1)) >> a.args[0]
    elif k == 'bin':
        op, w, x, y = a.args
        r = bin_const(op, w, ev(x, val), ev(y, val))
        if r is None:
            raise ValueError('undefined operation')
    elif k == 'f2i':
        w, signed, x = a.args
        r = f2i_const(ev(x, val), w, signed)
    elif k == 'sel':
        tab, w, x = a.args
        i = ev(x, val)
        i = sgn(i, 64)
        r = tab[i]
    elif k == 'hex':
        r = (b'0123456789ABCDEF' if a.args[1] else b'0123456789abcdef')[ev_lf(a.args[0], val)]
    elif k == 'ite':
        c, x, y = a.args
        r = ev(x, val) if ev_cond(c, val) else ev(y, val)
    else:
        raise KeyError('no value for atom %r' % a)
    val[a] = r
    return r


def ev_lf(lf, val):
    return lf[0] + sum(k * ev_atom(a, val) for a, k in lf[1])


def ev(v, val):
    if type(v) is int or type(v) is float:
        return v
    if type(v) is S:
        return (v.c + sum(k * ev_atom(a, val) for a, k in v.t)) & ((1 << v.w) - 1)
    if type(v) is F:
        return ev_f(v, val)
    raise TypeError(repr(v))


def ev_f(v, val):
    op = v.op
    if op == 'i2f':
        w, signed, x = v.args
        i = ev(x, val)
        return float(sgn(i, w) if signed else i)
    if op == 'in':
        return val[v]
    if op == 'fneg':
        return -ev(v.args[0], val)
    return fbin(op, ev(v.args[0], val), ev(v.args[1], val))


def fbin(op, a, b):
    try:
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            return a * b
        if op == 'fdiv':
            if b == 0:
                if a == 0 or a != a:
                    return float('nan')
                neg = (math.copysign(1, a) * math.copysign(1, b)) < 0
                return float('-inf') if neg else float('inf')
            return a / b
    except OverflowError:
        return float('inf')
    raise KeyError(op)


def bin_const(op, w, a, b):
    m = (1 << w) - 1
    if op == 'mul':
        return a * b & m
    if op == 'udiv':
        return None if b == 0 else a // b
    if op == 'urem':
        return None if b == 0 else a % b
    if op in ('sdiv', 'srem'):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0 or (y == -1 and x == -(1 << (w - 1))):
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & m
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return None if b >= w else a << b & m
    if op == 'lshr':
        return None if b >= w else a >> b
    if op == 'ashr':
        return None if b >= w else (sgn(a, w) >> b) & m
    if op == 'add':
        return a + b & m
    if op == 'sub':
        return a - b & m
    raise KeyError(op)


def icmp_const(pred, w, a, b):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    p = pred[1:]
    return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b


def fcmp_key(pred, x, y):
    """canonical form of a floating comparison: ((olt|ole|oeq|one|ord, u, v), negated)"""
    neg = False
    if pred in ('une', 'ult', 'ule', 'ugt', 'uge', 'ueq', 'uno'):
        pred = {'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'ueq': 'one', 'uno': 'ord'}[pred]
        neg = True
    if pred in ('ogt', 'oge'):
        pred, x, y = {'ogt': 'olt', 'oge': 'ole'}[pred], y, x
    elif pred in ('oeq', 'one', 'ord') and repr(y) < repr(x):
        x, y = y, x
    return (pred, x, y), neg


FREL = {'olt': '<', 'ole': '<=', 'oeq': '=', 'one': '<>', 'ord': '<=>'}
MIRROR = {'<': '>', '>': '<', '=': '=', 'u': 'u'}


def fordered(x):
    """never a NaN: an input (finite by assumption) or a converted integer"""
    if type(x) is float:
        return x == x
    return type(x) is F and (x.op in ('in', 'sitofp', 'uitofp', 'i2f') or x.op == 'fneg' and fordered(x.args[0]))


def frel(key, truth):
    """what a comparison fact says about an (ordered) pair: (pair, the possible relations)"""
    pred, u, v = key
    rel = set(FREL[pred])
    if not truth:
        rel = set('<=>u') - rel
    if fordered(u) and fordered(v):
        rel.discard('u')
    if u == v:
        rel &= {'=', 'u'}
    if repr(v) < repr(u):
        u, v = v, u
        rel = {MIRROR[r] for r in rel}
    return ('frel', u, v), rel


def fcmp_const(pred, a, b):
    un = a != a or b != b
    if pred == 'ord':
        return not un
    if pred == 'uno':
        return un
    if pred == 'une':
        return un or a != b
    if un:
        return pred[0] == 'u'
    p = pred[1:]
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]


def ev_cond(c, val):
    if c.kind == 'icmp':
        pred, w, a, b = c.data
        r = icmp_const(pred, w, ev(a, val), ev(b, val))
    elif c.kind == 'fcmp':
        pred, a, b = c.data
        r = fcmp_const(pred, ev(a, val), ev(b, val))
    else:
        raise KeyError(c.kind)
    return (not r) if c.neg else r
