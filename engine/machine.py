"""Abstract interpreter over the module.

A state is one element of a trace-partitioned abstract domain: memory cells and registers hold
abstract values (vals.py); the path facts are interval lists per atom and per linear combination of
atoms.  Undecided branches partition the state; loops whose guards stay undecided are widened
(see widen()).
"""
import sys
from vals import *
import ir as IR

M64 = (1 << 64) - 1
INF = 1 << 200


class Fork(Exception):
    """alternatives: list of lists of facts; a fact is ('lin', c, terms, lo, hi) / ('nlin', c, terms, v)
    / ('cond', key, bool)"""

    def __init__(self, alts):
        self.alts = alts


class Alarm(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Gap(Exception):
    """something the analyser does not model: no answer"""
    where = None


class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'default', 'name', 'ro', 'tag')

    def __init__(self, id, size, kind, name='', default=None, ro=False):
        self.id = id
        self.size = size
        self.kind = kind
        self.cells = {}
        self.default = default      # None -> undefined, 0 -> zero-filled
        self.name = name
        self.ro = ro
        self.tag = None

    def copy(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.kind = self.kind
        o.cells = dict(self.cells)
        o.default = self.default
        o.name = self.name
        o.ro = self.ro
        o.tag = self.tag
        return o


class Frame:
    __slots__ = ('fn', 'code', 'regs', 'ip', 'allocas', 'ret', 'va', 'cont', 'visits')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.code = self.code
        f.regs = list(self.regs)
        f.ip = self.ip
        f.allocas = list(self.allocas) if self.allocas else None
        f.ret = self.ret
        f.va = self.va
        f.cont = self.cont
        f.visits = dict(self.visits) if self.visits else None
        return f


def recurs(a, b):
    """the two states differ in nothing the program can observe (output already written aside)"""
    for f, g in zip(a.frames, b.frames):
        if f.fn is not g.fn or f.ip != g.ip or f.allocas != g.allocas or f.regs != g.regs:
            return False
    if a.user != b.user or a.objs.keys() != b.objs.keys():
        return False
    for i, o in b.objs.items():
        p = a.objs[i]
        if o is not p and o.cells != p.cells:
            return False
    return True


def bit_field(ky):
    """U_m(L) - U_k(L) is a field of bits of L: (sign, k, the field) or None"""
    (a, ka), (b, kb) = ky
    if a.kind != 'U' or b.kind != 'U' or ka + kb or abs(ka) != 1:
        return None
    s = ka
    if a.args[0] < b.args[0]:
        a, b, s = b, a, -s
    k = b.args[0]
    c, t = a.args[1]
    v = mk(k, c, dict(t))
    if type(v) is int or (v.c, v.t) != b.args[1]:
        return None
    return s, k, mkD(k, a.args[0], c, dict(t))


class State:
    __slots__ = ('objs', 'owned', 'frames', 'rng', 'cons', 'conds', 'log', 'ev', 'nid', 'steps', 'user', 'retval', 'top', 'forks')

    def __init__(self):
        self.objs = {}
        self.owned = set()
        self.frames = []
        self.rng = {}
        self.cons = {}
        self.conds = {}
        self.log = None      # linked list of facts
        self.ev = None       # linked list of events
        self.nid = 1
        self.steps = 0
        self.user = {}
        self.retval = None
        self.top = None
        self.forks = 0

    def clone(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.owned = set()
        self.owned = set()
        s.frames = [f.copy() for f in self.frames]
        s.top = s.frames[-1] if s.frames else None
        s.rng = dict(self.rng)
        s.cons = dict(self.cons)
        s.conds = dict(self.conds)
        s.log = self.log
        s.ev = self.ev
        s.nid = self.nid
        s.steps = self.steps
        s.user = dict(self.user)
        s.retval = self.retval
        s.forks = self.forks
        return s

    # ---- events
    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        n = self.ev
        while n is not None:
            out.append(n[1])
            n = n[0]
        out.reverse()
        return out

    def facts(self):
        out = []
        n = self.log
        while n is not None:
            out.append(n[1])
            n = n[0]
        out.reverse()
        return out

    # ---- memory
    def new_obj(self, size, kind, name='', default=None):
        i = self.nid
        self.nid = i + 1
        o = Obj(i, size, kind, name, default)
        self.objs[i] = o
        self.owned.add(i)
        return o

    def wobj(self, i):
        o = self.objs.get(i)
        if o is None:
            raise Alarm('use-after-free', 'write to freed or dead object')
        if i in self.owned:
            return o
        o = o.copy()
        self.objs[i] = o
        self.owned.add(i)
        return o

    # ---- numeric facts
    def arange(self, a):
        r = self.rng.get(a)
        if r is None:
            return a.lo, a.hi
        return r[0][0], r[-1][1]

    def key(self, terms):
        """normalise linear part: (key tuple, g, sign)"""
        g = 0
        for _, k in terms:
            g = math.gcd(g, k)
        if terms[0][1] < 0:
            g = -g
        return tuple((a, k // g) for a, k in terms), g

    def hull(self, c, terms):
        """interval of c + terms"""
        if not terms:
            return c, c
        if len(terms) == 1:
            a, k = terms[0]
            lo, hi = self.arange(a)
            return (c + k * lo, c + k * hi) if k > 0 else (c + k * hi, c + k * lo)
        lo = hi = c
        for a, k in terms:
            l, h = self.arange(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if self.cons:
            ky, g = self.key(terms)
            r = self.cons.get(ky)
            if r is not None:
                l, h = r[0][0], r[-1][1]
                if g > 0:
                    l, h = c + g * l, c + g * h
                else:
                    l, h = c + g * h, c + g * l
                lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def ivals(self, c, terms):
        """list of intervals (over-approximation) of c+terms, using holes for single keys"""
        ky, g = self.key(terms)
        if len(ky) == 1:
            a = ky[0][0]
            r = self.rng.get(a) or ((a.lo, a.hi),)
        else:
            r = self.cons.get(ky)
            lo, hi = self.hull(0, ky)
            if r is None:
                r = ((lo, hi),)
            else:
                r = tuple((max(l, lo), min(h, hi)) for l, h in r if h >= lo and l <= hi)
        if g > 0:
            return [(c + g * l, c + g * h) for l, h in r]
        return [(c + g * h, c + g * l) for l, h in reversed(r)]

    def constrain(self, c, terms, lo, hi):
        """assume lo <= c+terms <= hi; False if infeasible"""
        if not terms:
            return lo <= c <= hi
        ky, g = self.key(terms)
        lo -= c
        hi -= c
        if g > 0:
            l, h = _ceil_div(lo, g), _floor_div(hi, g)
        else:
            l, h = _ceil_div(hi, g), _floor_div(lo, g)
        if l > h:
            return False
        if len(ky) == 2:
            b = bit_field(ky)
            if b is not None:
                s, k, D = b
                x, y = (l, h) if s > 0 else (-h, -l)
                if not self.constrain(D[0], D[1], _ceil_div(x, 1 << k), y >> k):
                    return False
        return self._clip(ky, l, h)

    def _clip(self, ky, l, h):
        if len(ky) == 1:
            a = ky[0][0]
            cur = self.rng.get(a) or ((a.lo, a.hi),)
            new = tuple((max(x, l), min(y, h)) for x, y in cur if y >= l and x <= h)
            if not new:
                return False
            self.rng[a] = new
            if a.kind == 'in':
                return new == cur or self._again(a)
            if a.kind == 'D':
                return self._field(a, new)
            if a.kind == 'U':
                m, (c, t) = a.args
                sib = SIBLINGS.get((m, t), ())
                if 1 < len(sib) <= 8 and len(new) <= 8 and not self._sib(a, sib, new, m, c):
                    return False
                return self._pre(a, new)
            return True
        cur = self.cons.get(ky)
        if cur is None:
            cur = (self.hull(0, ky),)
        new = tuple((max(x, l), min(y, h)) for x, y in cur if y >= l and x <= h)
        if not new:
            return False
        self.cons[ky] = new
        L, H = new[0][0], new[-1][1]
        # propagate to single atoms
        for a, k in ky:
            rl = rh = 0
            for b, kb in ky:
                if b is a:
                    continue
                bl, bh = self.arange(b)
                if kb > 0:
                    rl += kb * bl
                    rh += kb * bh
                else:
                    rl += kb * bh
                    rh += kb * bl
            # k*a in [L-rh, H-rl]
            x, y = L - rh, H - rl
            if k > 0:
                x, y = _ceil_div(x, k), _floor_div(y, k)
            else:
                x, y = _ceil_div(y, k), _floor_div(x, k)
            al, ah = self.arange(a)
            if x > al or y < ah:
                cur = self.rng.get(a) or ((a.lo, a.hi),)
                nw = tuple((max(p, x), min(q, y)) for p, q in cur if q >= x and p <= y)
                if not nw:
                    return False
                self.rng[a] = nw
        return True

    def _again(self, a):
        """an iteration count has narrowed: so may what is known in terms of it"""
        if a.args[0][:4] == 'iter':
            for ky, cur in list(self.cons.items()):
                if any(b is a for b, _ in ky) and not self._clip(ky, cur[0][0], cur[-1][1]):
                    return False
        return True

    def _field(self, a, ivs):
        """bits k..m-1 of a form lie in ivs: the form mod 2^m lies in the matching intervals"""
        k, m, (c, t) = a.args
        c, t = mkU(m, c, dict(t))
        if not self.constrain(c, t, ivs[0][0] << k, ((ivs[-1][1] + 1) << k) - 1):
            return False
        if 1 < len(ivs) <= 16 and len(t) == 1 and t[0][1] == 1:
            b = t[0][0]
            cur = self.rng.get(b) or ((b.lo, b.hi),)
            ivs = [((l << k) - c, ((h + 1) << k) - 1 - c) for l, h in ivs]
            new = tuple((max(x, l), min(y, h)) for x, y in cur for l, h in ivs if y >= l and x <= h)
            if not new:
                return False
            if len(new) <= 64:
                self.rng[b] = new
                if b.kind == 'U':
                    return self._pre(b, new)
        return True

    def _sib(self, a, sib, ivs, m, c):
        """a = L + c (mod 2^m) lies in ivs: restrict the residues of L + c'"""
        top = 1 << m
        for b in sib:
            if b is a:
                continue
            d = b.args[1][0] - c
            got = []
            for l, h in ivs:
                l, h = l + d, h + d
                q = l >> m
                l, h = l - q * top, h - q * top
                if h < top:
                    got.append((l, h))
                else:
                    got += [(l, top - 1), (0, h - top)]
            got.sort()
            cur = self.rng.get(b) or ((b.lo, b.hi),)
            new = tuple((max(x, l), min(y, h)) for x, y in cur for l, h in got if y >= l and x <= h)
            if not new:
                return False
            if len(new) <= 16:
                self.rng[b] = new
        return True

    def _pre(self, a, ivs):
        """a = (c + k*b) mod 2^m lies in ivs: restrict b"""
        m, (c, t) = a.args
        if len(t) != 1:
            return True
        b, k = t[0]
        bl, bh = self.arange(b)
        x, y = sorted((c + k * bl, c + k * bh))
        q0, q1 = x >> m, y >> m
        if q1 - q0 > 2 or len(ivs) > 16:
            return True
        cur = self.rng.get(b) or ((b.lo, b.hi),)
        new = []
        for q in range(q0, q1 + 1):
            for l, h in ivs:
                l2, h2 = l + (q << m) - c, h + (q << m) - c
                if k > 0:
                    l2, h2 = _ceil_div(l2, k), _floor_div(h2, k)
                else:
                    l2, h2 = _ceil_div(h2, k), _floor_div(l2, k)
                for p, r in cur:
                    if r >= l2 and p <= h2:
                        new.append((max(p, l2), min(r, h2)))
        if not new:
            return False
        new.sort()
        out = [new[0]]
        for l, h in new[1:]:
            if l <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(h, out[-1][1]))
            else:
                out.append((l, h))
        if len(out) <= 64:
            self.rng[b] = tuple(out)
            if b.kind == 'U':
                return self._pre(b, out)
        return True

    def exclude(self, c, terms, v):
        """assume c+terms != v"""
        if not terms:
            return c != v
        ky, g = self.key(terms)
        v -= c
        if v % g:
            return True
        v //= g
        if len(ky) == 2:
            b = bit_field(ky)
            if b is not None:
                s, k, D = b
                if v % (1 << k) == 0 and not self.exclude(D[0], D[1], s * v >> k):
                    return False
                if D[1] and not self.constrain(D[0], D[1], *self.hull(*D)):
                    return False
        if len(ky) == 1:
            a = ky[0][0]
            cur = self.rng.get(a) or ((a.lo, a.hi),)
        else:
            cur = self.cons.get(ky)
            if cur is None:
                cur = (self.hull(0, ky),)
        new = []
        for l, h in cur:
            if l <= v <= h:
                if l < v:
                    new.append((l, v - 1))
                if v < h:
                    new.append((v + 1, h))
            else:
                new.append((l, h))
        if not new:
            return False
        if len(new) > 64:
            return True
        if len(ky) == 1:
            a = ky[0][0]
            self.rng[a] = tuple(new)
            if a.kind == 'in':
                return self._again(a)
            if a.kind == 'U':
                return self._pre(a, new)
            if a.kind == 'D':
                return self._field(a, new)
        else:
            self.cons[ky] = tuple(new)
        return True

    def assume(self, facts):
        for f in facts:
            k = f[0]
            if k == 'lin':
                if not self.constrain(f[1], f[2], f[3], f[4]):
                    return False
            elif k == 'nlin':
                if not self.exclude(f[1], f[2], f[3]):
                    return False
            elif k == 'cond':
                cur = self.conds.get(f[1])
                if cur is not None and cur != f[2]:
                    return False
                self.conds[f[1]] = f[2]
                if f[1] and type(f[1][0]) is str and f[1][0] in FREL and len(f[1]) == 3:
                    pair, rel = frel(f[1], f[2])
                    cur = self.conds.get(pair)
                    rel = frozenset(rel if cur is None else cur & rel)
                    if not rel:
                        return False
                    self.conds[pair] = rel
            elif k == 'set':
                self.user[f[1]] = f[2]
                continue
            elif k == 'no':
                return False
            self.log = (self.log, f)
        return True

    # exact integer linear form of a width-w value
    def exact(self, v, w, signed):
        if type(v) is int:
            return (sgn(v, w) if signed else v), ()
        c, t = v.c, v.t
        lo, hi = self.hull(c, t)
        base = -(1 << (w - 1)) if signed else 0
        top = 1 << w
        q1 = (lo - base) >> w
        q2 = (hi - base) >> w
        if q1 == q2:
            return c - q1 * top, t
        # tighten with interval lists
        ivs = self.ivals(c, t)
        wins = set()
        for l, h in ivs:
            a = (l - base) >> w
            b = (h - base) >> w
            if b - a > 3:
                wins = None
                break
            wins.update(range(a, b + 1))
            if len(wins) > 3:
                wins = None
                break
        if wins is not None:
            wins = sorted(wins)
            if len(wins) == 1:
                return c - wins[0] * top, t
            raise Fork([[('lin', c, t, base + k * top, base + k * top + top - 1)] for k in wins])
        return s_lf(v, w) if signed else u_lf(v, w)


def _floor_div(a, b):
    return a // b


def _ceil_div(a, b):
    return -((-a) // b)


class Path:
    """a finished abstract trace"""
    __slots__ = ('st', 'status', 'value', 'loc', 'stack')

    def __init__(self, st, status, value, loc=None, stack=None):
        self.st = st
        self.status = status    # ret exit alarm gap budget
        self.value = value
        self.loc = loc
        self.stack = stack


class FnCode:
    __slots__ = ('name', 'code', 'tmpl', 'params', 'va', 'dbgs', 'ret', 'heads')


NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class Machine:
    keep_loops = False
    watch_steps = 200000

    def __init__(self, module, dbg):
        self.m = module
        self.dbg = dbg
        self.fns = {}
        self.natives = {}
        self.hooks = {}
        self.max_steps = 3000000
        self.max_paths = 4000
        self.max_forks = 400
        self.max_frames = 400
        self.gobj = {}
        self.fobj = {}
        self.fname = {}
        self.covered = set()
        self.calls = set()
        self.stats = {'paths': 0, 'steps': 0, 'forks': 0, 'alarms': 0, 'runs': 0, 'infeasible': 0}
        self.base = State()
        self._init_globals()
        import natives
        natives.install(self)
        self.cur = None

    # ---------- globals
    def _init_globals(self):
        st = self.base
        m = self.m
        # deterministic ids: functions then globals
        for n in list(m.funcs) + [d for d in m.decls if d not in m.funcs]:
            o = st.new_obj(0, 'func', n)
            o.ro = True
            self.fobj[n] = o.id
            self.fname[o.id] = n
        for n, (t, v, const) in m.globals.items():
            if v is None:
                size = 8
                try:
                    size = IR.size_of(t)
                except Exception:
                    pass
                o = st.new_obj(size, 'extern', n)
            else:
                o = st.new_obj(IR.size_of(t), 'global', n, 0)
            o.ro = const
            self.gobj[n] = o.id
        for n, (t, v, const) in m.globals.items():
            if v is not None:
                self._init_cells(st.objs[self.gobj[n]], 0, t, v)

    def _init_cells(self, o, off, t, v):
        if v is IR.CZERO:
            return
        if v is IR.CUNDEF:
            return
        if isinstance(v, IR.CStr):
            for i, b in enumerate(v.b):
                if b:
                    o.cells[off + i] = (1, b)
            return
        if isinstance(v, IR.CAgg):
            if isinstance(t, IR.TArr):
                sz = IR.size_of(t.e)
                for i, (et, ev_) in enumerate(v.elems):
                    self._init_cells(o, off + i * sz, et, ev_)
            else:
                IR.layout(t)
                for (et, ev_), fo in zip(v.elems, t.offs):
                    self._init_cells(o, off + fo, et, ev_)
            return
        val = self.const(t, v)
        if val == 0 and type(val) is int:
            return
        o.cells[off] = (IR.size_of(t), val)

    def const(self, t, v):
        if type(v) is int or type(v) is float:
            return v
        if isinstance(v, IR.CGlobal):
            if v.name in self.gobj:
                return Ptr(self.gobj[v.name], 0)
            if v.name in self.fobj:
                return Ptr(self.fobj[v.name], 0)
            raise Gap('unknown global ' + v.name)
        if v is IR.CUNDEF:
            return UNDEF
        if v is IR.CZERO:
            return 0 if not isinstance(t, IR.TFloat) else 0.0
        if isinstance(v, IR.CExpr):
            if v.op == 'gep':
                st, ops = v.args
                base = self.const(ops[0][0], ops[0][1])
                off = 0
                cur = st
                for j, (ot, ov) in enumerate(ops[1:]):
                    k = sgn(ov, ot.w)
                    if j == 0:
                        off += k * IR.size_of(cur)
                    elif isinstance(cur, IR.TArr):
                        cur = cur.e
                        off += k * IR.size_of(cur)
                    else:
                        IR.layout(cur)
                        off += cur.offs[k]
                        cur = cur.fields[k]
                return Ptr(base.o, base.off + off)
            if v.op in ('bitcast', 'inttoptr', 'ptrtoint'):
                return self.const(v.args[0], v.args[1])
        if isinstance(v, (IR.CAgg, IR.CStr)):
            raise Gap('aggregate operand')
        raise Gap('const %r' % (v,))

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self._compile(name)
            self.fns[name] = f
        return f

    # ---------- compile
    def _compile(self, name):
        import codegen
        return codegen.compile_fn(self, self.m.funcs[name])

    # ---------- memory helpers
    def resolve(self, st, p):
        """pointer -> (object, python offset); forks on small symbolic offsets"""
        if type(p) is not Ptr:
            if p is UNDEF:
                raise Alarm('uninitialised', 'use of uninitialised pointer')
            if type(p) is int:
                if p == 0:
                    raise Alarm('null-dereference', 'null pointer dereference')
                raise Alarm('wild-pointer', 'dereference of integer %#x' % p)
            raise Alarm('wild-pointer', 'dereference of non-pointer value %r' % (p,))
        o = st.objs.get(p.o)
        if o is None:
            raise Alarm('use-after-free', 'access through pointer to freed or out-of-scope object')
        off = p.off
        if type(off) is int:
            return o, off
        return o, self.split(st, off, 64, True, 64)

    def split(self, st, v, w, signed, limit):
        """python int for v, forking over its values if few"""
        if type(v) is int:
            return sgn(v, w) if signed else v
        c, t = st.exact(v, w, signed)
        if not t:
            return c
        ivs = st.ivals(c, t)
        g = 0
        for _, k in t:
            g = math.gcd(g, k)
        vals = []
        for l, h in ivs:
            x = l + ((c - l) % g)
            while x <= h:
                vals.append(x)
                x += g
                if len(vals) > limit:
                    return None
        if len(vals) == 1:
            return vals[0]
        if not vals:
            raise Fork([])
        raise Fork([[('lin', c, t, x, x)] for x in vals])

    def check_bounds(self, st, o, off, n, what):
        if off is None:
            raise Gap('unbounded symbolic offset into %s' % (o.name or o.kind))
        size = o.size
        if type(size) is not int:
            lo, hi = st.hull(*size)
            if off < 0 or off + n > lo:
                raise Alarm('out-of-bounds', '%s of %d byte(s) at offset %d, object %s may have only %d' % (what, n, off, o.name or o.kind, lo))
            return
        if off < 0 or off + n > size:
            raise Alarm('out-of-bounds', '%s of %d byte(s) at offset %d of %s of size %d' % (what, n, off, o.name or o.kind, size))

    def load(self, st, p, n, kind):
        """kind: 'i','p','f'"""
        if type(p) is Ptr and type(p.off) is not int:
            r = self._load_sym(st, p, n, kind)
            if r is not None:
                return r
        o, off = self.resolve(st, p)
        c = o.cells.get(off) if off is not None else None
        if c is not None and c[0] == n:
            v = c[1]
        else:
            self.check_bounds(st, o, off, n, 'read')
            if o.kind == 'func':
                raise Alarm('wild-pointer', 'read from function')
            v = self.load_slow(st, o, off, n)
        # kind agreement
        if kind == 'p':
            if type(v) is S or type(v) is F or type(v) is float or (type(v) is int and 0 < v):
                if type(v) is int and self.int_as_ptr_ok(st, o, off, v):
                    return v
                self.pun(st, o, off, 'a pointer is read from a cell holding %r' % (v,))
        elif kind == 'i':
            if type(v) is Ptr and n == 8:
                # integers never come from pointer cells in well-typed code
                self.pun(st, o, off, 'an integer is read from a cell holding a pointer')
            elif type(v) is F or type(v) is float:
                self.pun(st, o, off, 'an integer is read from a cell holding a double')
        elif kind == 'f':
            if type(v) is int and v == 0:
                return 0.0
            if type(v) is int or type(v) is S or type(v) is Ptr:
                self.pun(st, o, off, 'a double is read from a cell holding %r' % (v,))
        return v

    def int_as_ptr_ok(self, st, o, off, v):
        return True     # integers may be stored in a void * (conditions, numbers of local labels); using one as an address is a fault

    def pun(self, st, o, off, msg):
        raise Alarm('type-confusion', msg)

    def load_slow(self, st, o, off, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] > n:
            v = c[1]
            if v is UNDEF:
                return UNDEF
            if type(v) is int or type(v) is S:
                return trunc(v, 8 * n)
            if type(v) is Ptr:
                raise Alarm('type-confusion', 'partial read of a pointer')
            if type(v) is Parts:
                raise Gap('partial read of a structure value')
            raise Alarm('type-confusion', 'partial read of %r' % (v,))
        # gather bytes
        parts = []
        i = off
        end = off + n
        while i < end:
            c = cells.get(i)
            if c is not None:
                sz, v = c
                if i + sz <= end:
                    parts.append((i - off, sz, v))
                    i += sz
                    continue
                parts.append((i - off, end - i, self.sub(v, 0, end - i)))
                break
            # inside a larger cell?
            found = None
            for b in range(1, 8):
                c = cells.get(i - b)
                if c is not None:
                    if c[0] > b:
                        found = (b, c)
                    break
            if found:
                b, (sz, v) = found
                k = min(sz - b, end - i)
                parts.append((i - off, k, self.sub(v, b, k)))
                i += k
                continue
            if o.default is None:
                parts.append((i - off, 1, UNDEF))
            elif callable(o.default):
                parts.append((i - off, 1, o.default(st, o, i)))
            else:
                parts.append((i - off, 1, o.default))
            i += 1
        if len(parts) == 1 and parts[0][1] == n:
            return parts[0][2]
        w = 8 * n
        acc = 0
        if n == 8 and any(type(v) not in (int, S) for _, _, v in parts):
            return UNDEF if all(v is UNDEF for _, _, v in parts) else Parts(parts)
        for po, sz, v in parts:
            if v is UNDEF:
                return UNDEF
            if type(v) not in (int, S):
                raise Alarm('type-confusion', 'bytes of %r reassembled' % (v,))
            u = u_lf(v, 8 * sz) if type(v) is S else (v, ())
            x = from_lf(w, u)
            acc = add(w, acc, mulc(w, x, 1 << (8 * po)))
        return acc

    def sub(self, v, byteoff, n):
        if v is UNDEF:
            return UNDEF
        if type(v) is int:
            return (v >> (8 * byteoff)) & ((1 << (8 * n)) - 1)
        if type(v) is S:
            if byteoff == 0:
                return trunc(v, 8 * n)
            c, t = lf_of(v)
            return from_lf(8 * n, mkD(8 * byteoff, 8 * (byteoff + n), c, t))
        raise Alarm('type-confusion', 'partial read of %r' % (v,))

    sel_limit = 24

    def _load_sym(self, st, p, n, kind):
        """read at a symbolic offset: table lookups"""
        o = st.objs.get(p.o)
        if o is None:
            raise Alarm('use-after-free', 'access through pointer to freed object')
        c, t = st.exact(p.off, 64, True)
        if not t:
            return None
        ivs = st.ivals(c, t)
        lo, hi = ivs[0][0], ivs[-1][1]
        if type(o.size) is int:
            if lo < 0 or hi + n > o.size:
                # may be out of bounds: partition
                alts = []
                if lo < 0:
                    alts.append([('lin', c, t, lo, -1)])
                if hi + n > o.size:
                    alts.append([('lin', c, t, max(o.size - n + 1, 0), hi)])
                if max(lo, 0) <= min(hi, o.size - n):
                    alts.append([('lin', c, t, max(lo, 0), min(hi, o.size - n))])
                if len(alts) == 1:
                    raise Alarm('out-of-bounds', 'read at offset in [%d,%d] of %s of size %d' % (lo, hi, o.name or o.kind, o.size))
                raise Fork(alts)
        g = 0
        for _, k in t:
            g = math.gcd(g, k)
        offs = []
        for l, h in ivs:
            x = l + ((c - l) % g)
            while x <= h:
                offs.append(x)
                x += g
                if len(offs) > 70000:
                    raise Gap('table too large')
        vals = {}
        for x in offs:
            cc = o.cells.get(x)
            v = cc[1] if cc is not None and cc[0] == n else self.load_slow(st, o, x, n)
            vals.setdefault(v, []).append(x)
        if len(vals) == 1:
            return next(iter(vals))
        if n == 1 and kind == 'i' and len(vals) > 2 and all(type(v) is int for v in vals):
            # digits of a number
            for tab, up in ((b'0123456789ABCDEF', True), (b'0123456789abcdef', False)):
                base = {x - tab.find(v) if v in tab else None for v, xs in vals.items() for x in xs}
                if len(base) == 1 and None not in base and o.kind == 'global':
                    return hex_digit((c - base.pop(), t), up)
        if len(vals) > self.sel_limit and kind == 'i' and all(type(v) is int for v in vals) and self.sel_ok(o):
            tab = _FrozenTab({x: v for v, xs in vals.items() for x in xs})
            a = atom('sel', (tab, 8 * n, p.off), min(vals), max(vals))
            return S(8 * n, 0, ((a, 1),))
        # partition by loaded value (classes of indices), as interval runs
        alts = []
        for v, xs in vals.items():
            xs.sort()
            runs = []
            for x in xs:
                if runs and x - runs[-1][1] == g:
                    runs[-1][1] = x
                else:
                    runs.append([x, x])
            for l, h in runs:
                alts.append([('lin', c, t, l, h)])
        if len(alts) > 300:
            raise Gap('too many table classes')
        raise Fork(alts)

    def sel_ok(self, o):
        return True

    def store(self, st, p, n, v):
        o, off = self.resolve(st, p)
        self.check_bounds(st, o, off, n, 'write')
        if o.ro:
            raise Alarm('read-only-write', 'write to constant object %s' % o.name)
        if o.id not in st.owned:
            o = st.wobj(o.id)
        if type(v) is Parts:
            for po, sz, x in v.parts:
                self.put(o, off + po, sz, x)
            return
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        self.clear_range(o, off, n)
        cells[off] = (n, v)

    def clear_range(self, o, off, n):
        cells = o.cells
        if not cells:
            return
        lo = off - 15
        for i in range(lo, off + n) if n < 4096 else sorted(k for k in cells if lo <= k < off + n):
            c = cells.get(i)
            if c is None:
                continue
            sz, v = c
            if i + sz <= off:
                continue
            del cells[i]
            if i < off:
                # keep the head bytes
                for b in range(off - i):
                    cells[i + b] = (1, self.sub(v, b, 1) if v is not UNDEF and type(v) in (int, S) else UNDEF)
            if i + sz > off + n:
                for b in range(off + n - i, sz):
                    cells[i + b] = (1, self.sub(v, b, 1) if v is not UNDEF and type(v) in (int, S) else UNDEF)

    # ---------- calls
    def push(self, st, name, args, dst, cont=None):
        f = self.fn(name)
        fr = Frame.__new__(Frame)
        fr.fn = f
        fr.code = f.code
        fr.regs = r = f.tmpl[:]
        np = len(f.params)
        for i in range(np):
            r[f.params[i]] = args[i]
        fr.va = args[np:] if f.va else None
        fr.ip = 0
        fr.allocas = None
        fr.ret = dst
        fr.cont = cont
        fr.visits = None
        st.frames.append(fr)
        st.top = fr
        if len(st.frames) > self.max_frames:
            raise Alarm('stack-overflow', 'unbounded recursion')

    def do_call(self, st, fr, name, args, dst, w):
        """call by name from frame fr"""
        h = self.hooks.get(name)
        if h is None and name not in self.m.funcs:
            base = name.split('.')[0] if name not in self.natives else name
            h = self.natives.get(base)
            if h is None:
                raise Gap('call to unmodelled function %s' % name)
        if h is not None:
            r = h(self, st, args)
            if r is PUSHED:
                st.top.ret = dst
                return
            if dst is not None:
                fr.regs[dst] = r
            return
        self.calls.add(name)
        self.push(st, name, args, dst)

    def call_ptr(self, st, fr, p, args, dst, w):
        if type(p) is Ptr and p.o in self.fname:
            self.do_call(st, fr, self.fname[p.o], args, dst, w)
            return
        if p is UNDEF:
            raise Alarm('uninitialised', 'call through uninitialised pointer')
        if type(p) is int and p == 0:
            raise Alarm('null-dereference', 'call through null pointer')
        raise Alarm('wild-pointer', 'call through %r' % (p,))

    def loc(self, st):
        for fr in reversed(st.frames):
            d = fr.fn.dbgs[fr.ip - 1] if fr.ip > 0 else (fr.fn.dbgs[0] if fr.fn.dbgs else None)
            if d is not None:
                return self.dbg.loc(d)
        return '?'

    def stack(self, st):
        out = []
        for fr in reversed(st.frames):
            d = fr.fn.dbgs[max(0, fr.ip - 1)]
            out.append('%s (%s)' % (fr.fn.name, self.dbg.loc(d)))
        return out

    # ---------- run
    widen = True

    def run(self, st, name, args, max_paths=None, widen=None):
        """explore all abstract traces of name(args) from st. returns list of Path"""
        if widen is not None and widen != self.widen:
            old, self.widen = self.widen, widen
            try:
                return self.run(st, name, args, max_paths)
            finally:
                self.widen = old
        n = self.stats.get('accelerated', 0)
        try:
            return self._run(st, name, args, max_paths)
        except Gap:
            if not self.widen or self.stats.get('accelerated', 0) == n:
                raise
        # the loop summary was not exact here: follow the iterations one by one
        self.stats['unsummarised'] = self.stats.get('unsummarised', 0) + 1
        return self.run(st, name, args, max_paths, False)

    def _run(self, st, name, args, max_paths=None):
        st = st.clone()
        base_depth = len(st.frames)
        self.stats['runs'] += 1
        if name in self.hooks or name not in self.m.funcs:
            raise Gap('no function %s' % name)
        self.push(st, name, list(args), None)
        work = [st]
        out = []
        limit = max_paths or self.max_paths
        while work:
            st = work.pop()
            res = self._run_one(st, base_depth, work)
            if res is not None and (res.status != 'loop' or self.keep_loops):
                out.append(res)
                self.stats['paths'] += 1
                if len(out) > limit:
                    raise Gap('path budget exceeded in %s' % name)
        return out

    def _run_one(self, st, base_depth, work):
        frames = st.frames
        steps = 0
        watch, mark = self.watch_steps, None
        while True:
            fr = st.top
            try:
                while True:
                    fr = st.top
                    code = fr.code
                    r = fr.regs
                    while st.top is fr:
                        i = fr.ip
                        fr.ip = i + 1
                        steps += 1
                        code[i](st, fr, r)
                        if steps >= watch:
                            break
                    if len(frames) == base_depth:
                        self.stats['steps'] += steps
                        st.steps += steps
                        return Path(st, 'ret', st.retval)
                    if steps >= watch and st.top is fr:
                        # a long way without an undecided branch: is a former state reached again?
                        if mark is None or steps >= mark[4]:
                            mark = (fr.fn, fr.ip, len(frames), st.clone(), steps + 4 * self.watch_steps)
                            watch = steps + 1
                        else:
                            watch = steps + 1
                            if fr.ip == mark[1] and fr.fn is mark[0] and len(frames) == mark[2] and st.forks == mark[3].forks and recurs(mark[3], st):
                                raise Alarm('endless loop', 'the same state is reached again and again')
                    if steps > self.max_steps:
                        raise Gap('step budget')
            except Fork as f:
                fr = st.top
                fr.ip -= 1
                self.stats['forks'] += 1
                st.forks += 1
                st.log = (st.log, ('at', fr.fn.name, fr.fn.dbgs[fr.ip]))
                alts = []
                for a in f.alts:
                    s2 = st.clone()
                    if s2.assume(a):
                        alts.append(s2)
                    else:
                        self.stats['infeasible'] += 1
                if not alts:
                    return None
                st = alts[0]
                if st.forks > self.max_forks:
                    g = Gap('fork budget in %s' % self.loc(st))
                    g.where = self.stack(st)
                    raise g
                frames = st.frames
                work.extend(reversed(alts[1:]))
            except Alarm as a:
                self.stats['alarms'] += 1
                self.stats['steps'] += steps
                return Path(st, 'alarm', (a.kind, a.msg), self.loc(st), self.stack(st))
            except Subsumed:
                self.stats['steps'] += steps
                return Path(st, 'loop', None, self.loc(st))
            except ExitPath as e:
                self.stats['steps'] += steps
                return Path(st, 'exit', e.code, self.loc(st))
            except Gap as g:
                if not getattr(g, 'where', None):
                    g.where = self.stack(st)
                raise

    # ---------- loops with undecided guards: affine acceleration
    WIDEN_AFTER = 3

    def back_edge(self, st, fr, r, ip, phis):
        if not self.widen:
            return
        v = fr.visits
        if v is None:
            v = fr.visits = {}
        ent = v.get(ip)
        if ent is None or (ent[0] == st.forks and ent[2] is None):
            v[ip] = (st.forks, (), None)
            return
        snap = (tuple(r[p[0]] for p in phis), st.objs, st.log, st.ev)
        if ent[2] is not None:
            self._check_induction(st, fr, ent[2], snap, phis)
            raise Subsumed()
        st.objs = dict(st.objs)
        st.owned = set()
        snaps = (ent[1] + (snap,))[-3:]
        if len(snaps) == 3:
            w = self._accelerate(st, fr, r, phis, snaps)
            if w is not None:
                v[ip] = (st.forks, (), w)
                return
        v[ip] = (st.forks, snaps, None)

    def _delta(self, a, b, c, kind, w):
        """common difference of three successive values: 0 / linear form dict / None"""
        if b == c and type(b) == type(c):
            return 0
        if kind == 'p':
            if type(a) is Ptr and type(b) is Ptr and type(c) is Ptr and a.o == b.o == c.o:
                a, b, c = [x.off & M64 if type(x.off) is int else x.off for x in (a, b, c)]
                w = 64
            else:
                return None
        if type(a) not in (int, S) or type(b) not in (int, S) or type(c) not in (int, S):
            return None
        d1 = add(w, b, a, -1)
        d2 = add(w, c, b, -1)
        if type(d1) is int and d1 == d2:
            return sgn(d1, w)
        return None

    def _accelerate(self, st, fr, r, phis, snaps):
        s0, s1, s2 = snaps
        chg = []        # (where, delta, value, kind, width)
        for i, (p, kind, w) in enumerate(phis):
            d = self._delta(s0[0][i], s1[0][i], s2[0][i], kind, w)
            if d is None:
                return None
            if d:
                chg.append((('reg', p), d, s2[0][i], kind, w))
        o0, o1, o2 = s0[1], s1[1], s2[1]
        if o2 is not o1:
            for k, ob in o2.items():
                b1 = o1.get(k)
                if b1 is ob:
                    continue
                b0 = o0.get(k)
                if b1 is None or b0 is None or b1.size != ob.size or b1.tag != ob.tag or set(b1.cells) != set(ob.cells) or set(b0.cells) != set(b1.cells):
                    if ob.kind == 'stack' and self._dead_stack(st, k):
                        continue
                    return None
                for off, (n, v) in ob.cells.items():
                    n1, v1 = b1.cells[off]
                    n0, v0 = b0.cells[off]
                    if n1 != n or n0 != n:
                        return None
                    if v1 == v:
                        continue
                    d = self._delta(v0, v1, v, 'p' if type(v) is Ptr else 'i', 8 * n)
                    if d is None:
                        return None
                    if d:
                        chg.append((('mem', k, off, n), d, v, 'p' if type(v) is Ptr else 'i', 8 * n))
            if len(o1) != len(o2):
                return None
        if not chg:
            return None
        self.kcount = getattr(self, 'kcount', 0) + 1
        # k is a fresh iteration count
        g = min(abs(c[1]) for c in chg)
        top = (1 << 64) // max(1, max(abs(c[1]) for c in chg))
        ka = atom('in', ('iter%d' % self.kcount,), 0, top)
        facts = self._loop_facts(s0, s1, s2, ka)
        for f in facts:
            if not st.constrain(f[1], f[2], f[3], f[4]):
                return None
            st.log = (st.log, f)
        out = []
        for where, d, v, kind, w in chg:
            nv = self._shift(v, d, ka, kind, w)
            out.append((where, d, nv, kind, w))
            if where[0] == 'reg':
                r[where[1]] = nv
            else:
                o = st.wobj(where[1])
                o.cells[where[2]] = (where[3], nv)
        e1, e2 = [], []
        n = s2[3]
        while n is not s1[3]:
            e2.append(n[1])
            n = n[0]
        while n is not s0[3]:
            e1.append(n[1])
            n = n[0]
        if e1 or e2:
            st.emit('repeat', ka, tuple(reversed(e1)), tuple(reversed(e2)))
        self.stats['accelerated'] = self.stats.get('accelerated', 0) + 1
        base = (tuple(r[p[0]] for p in phis), dict(st.objs), st.log, st.ev)
        st.owned = set()
        return (ka, out, base, facts)

    def _dead_stack(self, st, k):
        return not any(fr.allocas and k in fr.allocas for fr in st.frames)

    def _shift(self, v, d, ka, kind, w):
        if kind == 'p':
            off = v.off & M64 if type(v.off) is int else v.off
            return Ptr(v.o, add(64, off, mk(64, 0, {ka: d})))
        return add(w, v, mk(w, 0, {ka: d}))

    def _loop_facts(self, s0, s1, s2, ka):
        def seg(a, b):
            out = []
            n = b
            while n is not None and n is not a:
                out.append(n[1])
                n = n[0]
            out.reverse()
            return out
        f1 = [f for f in seg(s0[2], s1[2]) if f[0] == 'lin']
        f2 = [f for f in seg(s1[2], s2[2]) if f[0] == 'lin']
        if len(f1) != len(f2):
            return []
        out = []
        for a, b in zip(f1, f2):
            if a[2] != b[2]:
                continue
            l1, h1 = a[3] - a[1], a[4] - a[1]
            l2, h2 = b[3] - b[1], b[4] - b[1]
            for x1, x2, low in ((l1, l2, True), (h1, h2, False)):
                d = x2 - x1
                if not d:
                    continue
                # terms >= x2 + d*k   (or <=)
                t = dict(b[2])
                t[ka] = t.get(ka, 0) - d
                tt = tuple(sorted(((q, k) for q, k in t.items() if k), key=lambda z: z[0].id))
                out.append(('lin', 0, tt, x2, 1 << 130) if low else ('lin', 0, tt, -(1 << 130), x2))
        return out

    def _check_induction(self, st, fr, wid, snap, phis):
        """the state after one more iteration must be the accelerated state with k+1"""
        ka, chg, base, facts = wid
        regd = {c[0][1]: c for c in chg if c[0][0] == 'reg'}
        for (p, kind, w), v, b in zip(phis, snap[0], base[0]):
            c = regd.get(p)
            want = b if c is None else self._plus(b, c[1], kind, w)
            if v != want:
                raise Gap('loop at %s is not affine' % self.loc(st))
        memd = {(c[0][1], c[0][2]): c for c in chg if c[0][0] == 'mem'}
        for k, ob in snap[1].items():
            b = base[1].get(k)
            if b is ob:
                continue
            if b is None:
                raise Gap('loop at %s allocates' % self.loc(st))
            for off, (n, v) in ob.cells.items():
                old = b.cells.get(off)
                c = memd.get((k, off))
                if old is None or v != (old[1] if c is None else self._plus(old[1], c[1], c[3], c[4])):
                    raise Gap('loop at %s is not affine' % self.loc(st))
        for f in facts:
            kk = dict(f[2]).get(ka, 0)
            lo, hi = st.hull(kk, f[2])
            if f[3] > -(1 << 129) and lo < f[3] or f[4] < (1 << 129) and hi > f[4]:
                raise Gap('loop guard at %s is not affine' % self.loc(st))

    def _plus(self, v, d, kind, w):
        if kind == 'p':
            off = v.off & M64 if type(v.off) is int else v.off
            x = add(64, off, d & M64)
            return Ptr(v.o, sgn(x, 64) if type(x) is int else x)
        return add(w, v, d & ((1 << w) - 1))

    # ---------- convenience for building inputs: run concrete constructor calls
    def call1(self, st, name, args):
        """call that must have exactly one trace; returns (state, value)"""
        ps = self.run(st, name, args)
        if len(ps) != 1 or ps[0].status != 'ret':
            raise Gap('constructor %s: %d traces %s' % (name, len(ps), [(p.status, p.value, p.stack) for p in ps][:3]))
        return ps[0].st, ps[0].value

    def cstr(self, st, s):
        """heap copy of a C string. s: bytes/str or list of values"""
        if isinstance(s, str):
            s = s.encode('latin1')
        o = st.new_obj(len(s) + 1, 'heap', 'str')
        for i, b in enumerate(s):
            o.cells[i] = (1, b)
        o.cells[len(s)] = (1, 0)
        return Ptr(o.id, 0)

    def gptr(self, name):
        return Ptr(self.gobj[name], 0)

    def rd(self, st, p, n=8, kind='p'):
        return self.load(st, p, n, kind)


class Subsumed(Exception):
    pass


class ExitPath(Exception):
    def __init__(self, code):
        self.code = code


class _FrozenTab(dict):
    def __hash__(self):
        return hash(tuple(sorted(self.items())))


PUSHED = object()


def inp(name, w, lo, hi):
    """input atom as width-w value"""
    a = atom('in', (name,), lo, hi) if ('in', (name,)) not in _known else _known[('in', (name,))]
    if a.lo != lo or a.hi != hi:
        a = atom('in', (name, lo, hi), lo, hi)
    return S(w, 0, ((a, 1),))


_known = {}
