"""Deciding equalities between abstract values on one trace partition.

`equal` answers True only when the two values have the same normal form under the partition's
facts; a difference is reported only together with a concrete valuation of the inputs that
satisfies every fact of the partition and on which the two values differ.
"""
import random
from vals import *


# ---------- re-normalisation under path facts

def simp_lf(st, c, t, depth=0):
    """integer linear form with U/D atoms collapsed where the partition bounds them"""
    out = {}
    for a, k in t:
        x = _simp_atom(st, a, depth)
        if x is None:
            out[a] = out.get(a, 0) + k
        else:
            c += k * x[0]
            for b, kb in x[1]:
                out[b] = out.get(b, 0) + k * kb
    return c, tuple(sorted(((a, k) for a, k in out.items() if k), key=lambda z: z[0].id))


def _simp_atom(st, a, depth):
    lo, hi = st.arange(a)
    if lo == hi:
        return lo, ()
    if depth > 6:
        return None
    if a.kind == 'U':
        m, lf = a.args
        c, t = simp_lf(st, lf[0], lf[1], depth + 1)
        u = mkU(m, c, dict(t))
        if len(u[1]) == 1 and u[0] == 0 and u[1][0][0].kind == 'U' and u[1][0][1] == 1:
            b = u[1][0][0]
            l, h = st.hull(b.args[1][0], b.args[1][1]) if b.args[1][1] else (0, 0)
            if l >> m == h >> m:
                return b.args[1][0] - ((l >> m) << m), b.args[1][1]
            # windows through the residue the partition already knows
            w = _windows(st, b.args[1], m)
            if w is not None:
                return b.args[1][0] - (w << m), b.args[1][1]
            return None if b is a else u
        return u if u != (0, ((a, 1),)) else None
    if a.kind == 'D':
        k, m, lf = a.args
        c, t = simp_lf(st, lf[0], lf[1], depth + 1)
        u = _simp_u(st, m, c, t)
        l, h = st.hull(u[0], u[1]) if u[1] else (u[0], u[0])
        if l >> k == h >> k:
            return l >> k, ()
        d = mkD(k, m, c, dict(t))
        return d if d != (0, ((a, 1),)) else None
    return None


def _simp_u(st, m, c, t):
    u = mkU(m, c, dict(t))
    if len(u[1]) == 1 and u[0] == 0 and u[1][0][0].kind == 'U' and u[1][0][1] == 1:
        b = u[1][0][0]
        x = _simp_atom(st, b, 5)
        if x is not None:
            return x
    return u


def _windows(st, lf, m):
    try:
        ivs = st.ivals(lf[0], lf[1])
    except Exception:
        return None
    q = {l >> m for l, h in ivs} | {h >> m for l, h in ivs}
    if len(q) == 1:
        return q.pop()
    return None


def simp(st, v):
    if type(v) is not S:
        return v
    c, t = simp_lf(st, v.c, v.t)
    return mk(v.w, c, dict(t))


# ---------- residue consistency

def residues(st):
    """False if the partition's facts contradict each other modulo 2^8 / 2^16 / 2^32"""
    table = {}

    def put(m, terms, lo, hi):
        M = 1 << m
        if hi - lo >= M - 1:
            return True
        tt = []
        for a, k in terms:
            k %= M
            if k:
                tt.append((a, k))
        if not tt:
            return any((x - 0) % M == 0 for x in (lo, hi)) or (lo // M != hi // M) or lo % M == 0
        # canonical sign
        if tt[0][1] > M // 2:
            tt = [(a, (-k) % M) for a, k in tt]
            lo, hi = -hi, -lo
        key = (m, tuple(tt))
        l = lo % M
        h = l + (hi - lo)
        ivs = [(l, min(h, M - 1))] + ([(0, h - M)] if h >= M else [])
        cur = table.get(key)
        if cur is not None:
            ivs = [(max(a, x), min(b, y)) for a, b in cur for x, y in ivs if max(a, x) <= min(b, y)]
            if not ivs:
                return False
        table[key] = ivs
        return True

    def one(c, terms, lo, hi):
        # c+terms in [lo,hi]
        if len(terms) == 1 and terms[0][0].kind == 'U':
            a, k = terms[0]
            if abs(k) == 1:
                m, lf = a.args
                l, h = (lo - c, hi - c) if k == 1 else (c - hi, c - lo)
                l, h = max(l, 0), min(h, (1 << m) - 1)
                if l > h:
                    return False
                return put(m, lf[1], l - lf[0], h - lf[0])
        for m in (8, 16, 32):
            if not put(m, terms, lo - c, hi - c):
                return False
        return True

    for a, r in st.rng.items():
        if len(r) == 1 or a.kind == 'U':
            if not one(0, ((a, 1),), r[0][0], r[-1][1]):
                return False
    for ky, r in st.cons.items():
        if not one(0, ky, r[0][0], r[-1][1]):
            return False
    return True


# ---------- concrete confirmation

def base_atoms(x, acc):
    if type(x) is S:
        for a, _ in x.t:
            _atoms(a, acc)
    elif type(x) is F:
        if x.op == 'in':
            acc.add(x)
        else:
            for y in x.args:
                base_atoms(y, acc)
    elif type(x) is Cond:
        if x.kind in ('icmp', 'fcmp'):
            for y in x.data:
                base_atoms(y, acc)
    elif type(x) is Ptr:
        base_atoms(x.off, acc)
    elif type(x) is Atom:
        _atoms(x, acc)
    elif type(x) in (tuple, list):
        for y in x:
            base_atoms(y, acc)


def _atoms(a, acc):
    if a in acc:
        return
    if a.kind == 'in':
        acc.add(a)
        return
    for y in a.args:
        if type(y) is not _Frozen:
            base_atoms(y, acc)


class _Frozen(dict):
    pass


def fact_atoms(f, acc):
    if f[0] in ('lin', 'nlin'):
        base_atoms(f[2], acc)
    elif f[0] == 'cond' and f[1] and f[1][0] != 'env':
        base_atoms(tuple(f[1]), acc)


def fact_holds(f, val):
    k = f[0]
    if k == 'lin':
        return f[3] <= ev_lf((f[1], f[2]), val) <= f[4]
    if k == 'nlin':
        return ev_lf((f[1], f[2]), val) != f[3]
    if k == 'cond':
        key = f[1]
        if not key or key[0] == 'env' or type(key[0]) is not str or len(key) not in (3, 4):
            return True
        if len(key) == 3:
            return fcmp_const(key[0], ev(key[1], val), ev(key[2], val)) == f[2]
        return True
    return True


SPECIALS = [0, 1, -1, 2, -2, 3, 7, 8, 15, 16, -16, -17, 17, 31, 32, 63, 64, 127, 128, -128, -129, 129, 255, 256, -255, -256, 257,
            0x1234, 0x4321, 32767, 32768, -32768, -32769, 65535, 65536, 65537, -65535, -65536, 0x12345678,
            0x7fffffff, 0x80000000, -0x80000000, 0xffffffff, 0x100000000, 0x100000005, 0x20000, -0x20000, 0x123456789abcdef, (1 << 63) - 1, -(1 << 63)]
FSPECIALS = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 3.25, 100.75, 127.0, 128.0, 255.9, 256.0, 65535.5, 65536.0, -129.5, 1e10, -1e10, 1e300, 4294967297.0, 2147483653.0, -4294967299.0]


def witness(st, differ, values, tries=1500, seed=1, facts=None):
    """valuation satisfying all facts of st on which differ(val) is true, or None"""
    facts = st.facts() if facts is None else facts
    atoms = set()
    for f in facts:
        fact_atoms(f, atoms)
    for v in values:
        base_atoms(v, atoms)
    atoms = sorted(atoms, key=lambda a: (0, a.id) if type(a) is Atom else (1, str(a)))
    if not atoms:
        val = {}
        try:
            return {} if all(fact_holds(f, val) for f in facts) and differ(val) else None
        except (ValueError, KeyError):
            return None
    rnd = random.Random(seed)
    pool = {}
    for a in atoms:
        if type(a) is F:
            pool[a] = FSPECIALS
            continue
        r = st.rng.get(a) or ((a.lo, a.hi),)
        c = []
        for l, h in r:
            c += [l, h, l + 1, h - 1, (l + h) // 2]
            c += [x for x in SPECIALS if l <= x <= h]
        pool[a] = [x for x in c if any(l <= x <= h for l, h in r)]
    order = list(facts)
    for n in range(tries):
        base = {}
        for a in atoms:
            p = pool[a]
            if type(a) is F:
                base[a] = rnd.choice(p)
            elif rnd.random() < 0.75:
                base[a] = rnd.choice(p)
            else:
                l, h = rnd.choice(st.rng.get(a) or ((a.lo, a.hi),))
                if rnd.random() < 0.5 and h - l > 1 << 17:
                    l2 = max(l, -(1 << 16))
                    h2 = min(h, 1 << 16)
                    if l2 < h2:
                        l, h = l2, h2
                base[a] = rnd.randint(l, h)
        ok = _repair(st, order, base, rnd)
        if ok is None:
            continue
        try:
            if differ(dict(ok)):
                return ok
        except (ValueError, KeyError):
            continue
    return None


def _repair(st, facts, base, rnd):
    for rounds in range(25):
        val = dict(base)
        bad = None
        for f in facts:
            try:
                if not fact_holds(f, val):
                    bad = f
                    break
            except (ValueError, KeyError):
                return None
        if bad is None:
            return base
        if bad[0] == 'cond':
            acc = set()
            fact_atoms(bad, acc)
            fl = [a for a in acc if type(a) is F]
            it = [a for a in acc if type(a) is Atom]
            if fl and (rnd.random() < 0.7 or not it):
                base[rnd.choice(fl)] = rnd.choice(FSPECIALS)
            elif it:
                a = rnd.choice(it)
                base[a] = _inrange(st, a, rnd.choice(SPECIALS))
            else:
                return None
            continue
        cur = ev_lf((bad[1], bad[2]), val)
        if bad[0] == 'nlin':
            delta = rnd.choice((1, -1, 2, 3, 5))
        else:
            lo, hi = bad[3], bad[4]
            tgt = lo if rnd.random() < 0.4 else hi if rnd.random() < 0.6 else rnd.randint(lo, hi)
            if hi - lo > 1 << 80:
                tgt = lo if cur < lo else hi
            delta = tgt - cur
        if not _adjust(st, bad[2], delta, base, val, rnd, 0):
            return None
    return None


def _inrange(st, a, x):
    r = st.rng.get(a) or ((a.lo, a.hi),)
    for l, h in r:
        if l <= x <= h:
            return x
    return min((abs(x - y), y) for l, h in r for y in (l, h))[1]


def _adjust(st, terms, delta, base, val, rnd, depth):
    ts = list(terms)
    rnd.shuffle(ts)
    ts.sort(key=lambda x: (delta % abs(x[1]) != 0))
    for a, k in ts:
        d = delta // k if delta % k == 0 else -((-delta) // k)
        if a.kind == 'in':
            nv = base[a] + d
            if not a.lo <= nv <= a.hi:
                continue
            base[a] = nv
            return True
        if a.kind in ('U', 'D') and depth < 4:
            m = a.args[-2]
            lf = a.args[-1]
            sh = a.args[0] if a.kind == 'D' else 0
            dd = d << sh
            # any representative modulo 2^m
            if rnd.random() < 0.3:
                dd += rnd.choice((-1, 1)) << m
            if _adjust(st, lf[1], dd, base, val, rnd, depth + 1):
                return True
    return False


def describe(val):
    out = []
    for a, v in sorted(val.items(), key=lambda x: str(x[0])):
        if type(a) is Atom and a.kind == 'in':
            out.append('%s=%d' % (a, v))
        elif type(a) is F:
            out.append('%s=%r' % (a, v))
    return ', '.join(out) or '(no free input)'


# ---------- the decision

def norm(st, v):
    if type(v) is S:
        return simp(st, v)
    return v


def equal(st, a, b, w):
    """True / False (definitely different on every element) / None (undecided)"""
    if a is UNDEF or b is UNDEF:
        return a is b
    if type(a) is F or type(b) is F or type(a) is float or type(b) is float:
        if feq(a, b):
            return True
        return None
    if type(a) is Ptr or type(b) is Ptr:
        return a == b
    if type(a) is Cond or type(b) is Cond:
        return None
    d = add(w, a, b, -1)
    if d == 0 and type(d) is int:
        return True
    if type(d) is int:
        return False
    d = simp(st, d)
    if type(d) is int:
        return d == 0
    a2 = simp(st, a)
    b2 = simp(st, b)
    d2 = add(w, a2, b2, -1)
    if type(d2) is int:
        return d2 == 0
    # hull of the difference avoiding every multiple of 2^w
    lo, hi = st.hull(d.c, d.t)
    if lo == hi:
        return lo % (1 << w) == 0
    if (lo - 1) >> w == hi >> w and lo % (1 << w):
        return False
    return None


def feq(a, b):
    if type(a) is float and type(b) is float:
        return a == b or (a != a and b != b)
    return a == b


def feasible(st):
    return residues(st) and zones(st)


def zones(st):
    """False if the partition's difference bounds (x - y <= c) contradict each other"""
    edge = {}
    atoms = set()

    def put(x, y, c):
        # x - y <= c
        k = (x, y)
        if k not in edge or edge[k] > c:
            edge[k] = c
    for f in st.facts():
        if f[0] != 'lin':
            continue
        c, t, lo, hi = f[1:5]
        if len(t) == 2 and sorted(k for _, k in t) == [-1, 1]:
            x = next(a for a, k in t if k == 1)
            y = next(a for a, k in t if k == -1)
            put(x, y, hi - c)
            put(y, x, c - lo)
            atoms |= {x, y}
    if len(atoms) < 3:
        return True
    for a in atoms:
        lo, hi = st.arange(a)
        put(a, None, hi)
        put(None, a, -lo)
    nodes = list(atoms) + [None]
    if len(nodes) > 40:
        return True
    dist = {n: 0 for n in nodes}
    for r in range(len(nodes)):
        changed = False
        for (x, y), c in edge.items():
            if dist[y] + c < dist[x]:
                dist[x] = dist[y] + c
                changed = True
        if not changed:
            return True
    return False


def values_differ(w, a, b):
    def f(val):
        x, y = ev(a, val), ev(b, val)
        if type(x) is float or type(y) is float:
            return not feq(x, y)
        return (x - y) % (1 << w) != 0
    return f
