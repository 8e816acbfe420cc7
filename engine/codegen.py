"""IR function -> list of Python closures (one per instruction)."""
from vals import *
import ir as IR
from machine import Fork, Alarm, Gap, FnCode, NEGP, ExitPath

M64 = (1 << 64) - 1


def kind_of(t):
    if isinstance(t, IR.TPtr):
        return 'p'
    if isinstance(t, IR.TFloat):
        return 'f'
    return 'i'


def compile_fn(M, f):
    fc = FnCode()
    fc.name = f.name
    fc.ret = f.ret
    fc.va = f.va
    regidx = {}
    tmpl = []

    def reg(n):
        i = regidx.get(n)
        if i is None:
            i = regidx[n] = len(tmpl)
            tmpl.append(UNDEF)
        return i

    fc.params = [reg(n) for t, n in f.params]
    consts = {}

    def op(t, v):
        if isinstance(v, IR.Reg):
            return reg(v.name)
        c = M.const(t, v)
        k = (type(c), c) if not isinstance(c, (S,)) else ('S', id(c))
        if type(c) is float:
            k = ('f', repr(c))
        i = consts.get(k)
        if i is None:
            i = consts[k] = len(tmpl)
            tmpl.append(c)
        return i

    # addresses
    start = {}
    n = 0
    for b in f.order:
        start[b] = n
        for ins in f.blocks[b]:
            if ins.op in ('phi', 'nop'):
                continue
            n += 1
    code = []
    dbgs = []
    heads = find_heads(f)
    phis = {}

    def edge(frm, to):
        copies = []
        for ins in f.blocks[to]:
            if ins.op != 'phi':
                break
            for v, b in ins.args:
                if b.strip('"') == frm:
                    copies.append((reg(ins.dst), op(ins.ty, v)))
                    break
        kind = None
        if to in heads:
            if to not in phis:
                phis[to] = tuple((reg(i.dst), kind_of(i.ty), i.ty.w if isinstance(i.ty, IR.TInt) else 64)
                                 for i in f.blocks[to] if i.op == 'phi')
            kind = ('back' if (frm, to) in heads[to] else 'enter', phis[to])
        return start[to], tuple(copies), kind

    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op in ('phi', 'nop'):
                continue
            code.append(gen(M, fc, f, b, ins, reg, op, edge))
            dbgs.append(ins.dbg)
    fc.code = code
    fc.tmpl = tmpl
    fc.dbgs = dbgs
    return fc


def find_heads(f):
    """loop heads and their back edges (depth-first search)"""
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br':
            succ[b] = [t.args[1].strip('"'), t.args[2].strip('"')]
        elif t.op == 'jmp':
            succ[b] = [t.args[0].strip('"')]
        elif t.op == 'switch':
            succ[b] = [t.args[1].strip('"')] + [l.strip('"') for _, l in t.args[2]]
        else:
            succ[b] = []
    heads = {}
    color = {}
    stack = [(f.order[0], 0)]
    color[f.order[0]] = 1
    while stack:
        b, i = stack.pop()
        ss = succ[b]
        if i < len(ss):
            stack.append((b, i + 1))
            t = ss[i]
            c = color.get(t)
            if c is None:
                color[t] = 1
                stack.append((t, 0))
            elif c == 1:
                heads.setdefault(t, set()).add((b, t))
        else:
            color[b] = 2
    return heads


def go(M, st, fr, r, e):
    ip, copies, kind = e
    if copies:
        if len(copies) == 1:
            d, s = copies[0]
            r[d] = r[s]
        else:
            vs = [r[s] for d, s in copies]
            for (d, s), v in zip(copies, vs):
                r[d] = v
    fr.ip = ip
    if kind is not None:
        if kind[0] == 'back':
            M.back_edge(st, fr, r, ip, kind[1])
        elif fr.visits:
            fr.visits.pop(ip, None)


def decide(M, st, c):
    """truth of a value used as condition: int, Cond"""
    t = type(c)
    if t is int:
        return c != 0
    if t is Cond:
        r = decide_cond(M, st, c)
        return r
    if c is UNDEF:
        raise Alarm('uninitialised', 'branch depends on uninitialised value')
    if t is S:
        # i1 symbolic (e.g. trunc): test bit
        return decide_cond(M, st, mk_icmp(M, st, 'ne', c.w, c, 0))
    raise Gap('condition %r' % (c,))


def decide_cond(M, st, c):
    if type(c) is int:
        return c != 0
    if c.kind == 'icmp':
        pred, w, a, b = c.data
        v = try_icmp(M, st, pred, w, a, b)
        if v is None:
            raise Fork(icmp_alts(M, st, pred, w, a, b))
    elif c.kind == 'fcmp':
        key = c.data
        v = st.conds.get(key)
        if v is None:
            pair, yes = frel(key, True)
            no = frel(key, False)[1]
            cur = st.conds.get(pair, yes | no)
            if not cur & no:
                v = True
            elif not cur & yes:
                v = False
            else:
                raise Fork([[('cond', key, True)], [('cond', key, False)]])
    else:
        key = c.data
        v = st.conds.get(key)
        if v is None:
            raise Fork([[('cond', key, True)], [('cond', key, False)]])
    return v != c.neg


def _pcmp(M, st, pred, a, b):
    """pointer comparisons"""
    if a is UNDEF or b is UNDEF:
        raise Alarm('uninitialised', 'comparison of uninitialised value')
    if pred in ('eq', 'ne'):
        if type(a) is Ptr and type(b) is Ptr:
            if a.o != b.o:
                return pred == 'ne'
            if a.off == b.off:
                return pred == 'eq'
            if type(a.off) is int and type(b.off) is int:
                return pred == 'ne'
            return try_icmp(M, st, pred, 64, _o64(a.off), _o64(b.off))
        # pointer vs integer (null or small)
        return pred == 'ne'
    if type(a) is Ptr and type(b) is Ptr and a.o == b.o:
        p = 's' + pred[1:]
        return try_icmp(M, st, p, 64, _o64(a.off), _o64(b.off))
    if type(a) is Ptr and type(b) is int:
        return pred in ('ugt', 'uge', 'sgt', 'sge')
    if type(b) is Ptr and type(a) is int:
        return pred in ('ult', 'ule', 'slt', 'sle')
    raise Gap('ordering of unrelated pointers')


def _o64(x):
    return x & M64 if type(x) is int else x


def try_icmp(M, st, pred, w, a, b):
    """True/False/None"""
    if type(a) is int and type(b) is int:
        return icmp_const(pred, w, a, b)
    if a is UNDEF or b is UNDEF:
        raise Alarm('uninitialised', 'comparison of uninitialised value')
    if type(a) is Ptr or type(b) is Ptr:
        return _pcmp(M, st, pred, a, b)
    if pred in ('eq', 'ne'):
        d = add(w, a, b, -1)
        if type(d) is int:
            return (d == 0) == (pred == 'eq')
        top = 1 << w
        # multiples of 2^w attainable
        g = top
        for _, k in d.t:
            g = math.gcd(g, k)
        if d.c % g:
            return pred == 'ne'
        hit = False
        cnt = 0
        full = True
        for l, h in st.ivals(d.c, d.t):
            q1 = -((-l) >> w)
            q2 = h >> w
            if q2 >= q1:
                hit = True
                cnt += q2 - q1 + 1
            if not (l == h and l % top == 0):
                full = False
        if not hit:
            return pred == 'ne'
        if full:
            return pred == 'eq'
        u = mkU(w, *lf_of(d))
        if len(u[1]) == 1 and u[1][0][0].kind == 'U' and u[1][0][0] in st.rng:
            iv = st.ivals(u[0], u[1])
            if all(not (l <= 0 <= h) for l, h in iv):
                return pred == 'ne'
            if all(l == h == 0 for l, h in iv):
                return pred == 'eq'
        return None
    signed = pred[0] == 's'
    ca, ta = st.exact(a, w, signed)
    cb, tb = st.exact(b, w, signed)
    d = dict(ta)
    for x, k in tb:
        d[x] = d.get(x, 0) - k
    t = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda z: z[0].id))
    c = ca - cb
    lo, hi = st.hull(c, t)
    p = pred[1:]
    if p == 'lt':
        return True if hi < 0 else False if lo >= 0 else None
    if p == 'le':
        return True if hi <= 0 else False if lo > 0 else None
    if p == 'gt':
        return True if lo > 0 else False if hi <= 0 else None
    return True if lo >= 0 else False if hi < 0 else None


def icmp_alts(M, st, pred, w, a, b):
    if type(a) is Ptr or type(b) is Ptr:
        a, b = _o64(a.off), _o64(b.off)
        if pred not in ('eq', 'ne'):
            pred = 's' + pred[1:]
    if pred in ('eq', 'ne'):
        d = add(w, a, b, -1)
        top = 1 << w
        hits = []
        for l, h in st.ivals(d.c, d.t):
            q1 = -((-l) >> w)
            q2 = h >> w
            if q2 - q1 > 4 or len(hits) > 4:
                hits = None
                break
            hits.extend(range(q1, q2 + 1))
        if hits is None:
            u = mkU(w, *lf_of(d))
            eqs = [[('lin', u[0], u[1], 0, 0)]]
            ne = [('nlin', u[0], u[1], 0)]
        else:
            eqs = [[('lin', d.c, d.t, q * top, q * top)] for q in hits]
            ne = [('nlin', d.c, d.t, q * top) for q in hits]
        return eqs + [ne]
    signed = pred[0] == 's'
    ca, ta = st.exact(a, w, signed)
    cb, tb = st.exact(b, w, signed)
    d = dict(ta)
    for x, k in tb:
        d[x] = d.get(x, 0) - k
    t = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda z: z[0].id))
    c = ca - cb
    lo, hi = st.hull(c, t)
    p = pred[1:]
    cut = {'lt': 0, 'ge': 0, 'le': 1, 'gt': 1}[p]      # value < cut  |  value >= cut
    return [[('lin', c, t, lo, cut - 1)], [('lin', c, t, cut, hi)]]


def mk_icmp(M, st, pred, w, a, b):
    v = try_icmp(M, st, pred, w, a, b)
    if v is None:
        return Cond('icmp', (pred, w, a, b))
    return int(v)


def to_int(M, st, v):
    """force Cond to 0/1"""
    if type(v) is Cond:
        return int(decide_cond(M, st, v))
    return v


def binop(M, st, op, w, a, b):
    if type(a) is Cond:
        a = to_int(M, st, a)
    if type(b) is Cond:
        b = to_int(M, st, b)
    if type(a) is int and type(b) is int:
        r = bin_const(op, w, a, b)
        if r is None:
            if op in ('shl', 'lshr', 'ashr'):
                raise Alarm('undefined-shift', 'shift of a %d-bit value by %d' % (w, b))
            if b == 0:
                raise Alarm('division-by-zero', 'division by zero')
            raise Alarm('division-overflow', 'signed division overflow')
        return r
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is Ptr or type(b) is Ptr:
        return ptr_arith(M, st, op, w, a, b)
    if op == 'add':
        return add(w, a, b)
    if op == 'sub':
        return add(w, a, b, -1)
    if op == 'mul':
        if type(b) is int:
            return mulc(w, a, b)
        if type(a) is int:
            return mulc(w, b, a)
        return sym_bin(op, w, a, b)
    if op == 'and':
        if type(b) is int:
            return and_const(w, a, b)
        if type(a) is int:
            return and_const(w, b, a)
        if a == b:
            return a
        return sym_bin(op, w, a, b)
    if op == 'or':
        pa, pb = pbits(st, w, a), pbits(st, w, b)
        if pa & pb == 0:
            return add(w, a, b)
        if type(b) is int:
            return add(w, add(w, a, b), and_const(w, a, b), -1)
        if type(a) is int:
            return add(w, add(w, b, a), and_const(w, b, a), -1)
        if a == b:
            return a
        return sym_bin(op, w, a, b)
    if op == 'xor':
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            return add(w, add(w, a, b), mulc(w, and_const(w, a, b), 2), -1)
        if a == b:
            return 0
        pa, pb = pbits(st, w, a), pbits(st, w, b)
        if pa & pb == 0:
            return add(w, a, b)
        return sym_bin(op, w, a, b)
    if op in ('shl', 'lshr', 'ashr'):
        if type(b) is not int:
            k = None
            lt = try_icmp(M, st, 'ult', w, b, w)
            if lt is None:
                raise Fork(icmp_alts(M, st, 'ult', w, b, w))
            if not lt:
                raise Alarm('undefined-shift', 'shift of a %d-bit value by an amount outside 0..%d' % (w, w - 1))
            return sym_bin(op, w, a, b)
        if b >= w:
            raise Alarm('undefined-shift', 'shift of a %d-bit value by %d' % (w, b))
        if b == 0:
            return a
        if op == 'shl':
            return mulc(w, a, 1 << b)
        c, t = lf_of(a)
        if op == 'lshr':
            return from_lf(w, mkD(b, w, c, t))
        d = mkD(b, w, c + (1 << (w - 1)), t)
        return from_lf(w, (d[0] - (1 << (w - 1 - b)), d[1]))
    # division
    if type(b) is not int:
        z = try_icmp(M, st, 'eq', w, b, 0)
        if z is None:
            raise Fork(icmp_alts(M, st, 'eq', w, b, 0))
        if z:
            raise Alarm('division-by-zero', 'division by zero')
    elif b == 0:
        raise Alarm('division-by-zero', 'division by zero')
    if op in ('sdiv', 'srem'):
        m1 = try_icmp(M, st, 'eq', w, b, (1 << w) - 1)
        if m1 is None:
            raise Fork(icmp_alts(M, st, 'eq', w, b, (1 << w) - 1))
        if m1:
            mn = try_icmp(M, st, 'eq', w, a, 1 << (w - 1))
            if mn is None:
                raise Fork(icmp_alts(M, st, 'eq', w, a, 1 << (w - 1)))
            if mn:
                raise Alarm('division-overflow', 'signed division overflow')
    if type(b) is int and b & (b - 1) == 0:
        k = b.bit_length() - 1
        c, t = lf_of(a)
        if op == 'udiv':
            return from_lf(w, mkD(k, w, c, t)) if k else a
        if op == 'urem':
            return and_const(w, a, b - 1)
        if not b >> (w - 1):
            s = st.exact(a, w, True)
            lo, hi = st.hull(*s)
            if lo >= 0:
                if op == 'sdiv':
                    return from_lf(w, mkD(k, w, c, t)) if k else a
                return and_const(w, a, b - 1)
    if type(b) is int and op in ('udiv', 'urem', 'sdiv', 'srem') and type(a) is S:
        # quotient decided by the interval
        sg = op[0] == 's'
        e = st.exact(a, w, sg)
        lo, hi = st.hull(*e)
        bb = sgn(b, w) if sg else b
        if lo >= 0 and bb > 0:
            # e = bb*Q + R
            qt = tuple((x, k // bb) for x, k in e[1] if k % bb == 0)
            rt = tuple((x, k) for x, k in e[1] if k % bb)
            rc = e[0] % bb
            rlo, rhi = st.hull(rc, rt)
            if qt or not rt:
                if rlo // bb == rhi // bb:
                    j = rlo // bb
                    if op[1:] == 'div':
                        return mk(w, e[0] // bb + j, dict(qt))
                    return mk(w, rc - j * bb, dict(rt)) if rt else (rc - j * bb)
                if rhi // bb - rlo // bb <= 2:
                    raise Fork([[('lin', rc, rt, j * bb, j * bb + bb - 1)] for j in range(rlo // bb, rhi // bb + 1)])
        if lo >= 0 and bb > 0 and lo // bb == hi // bb:
            q = lo // bb
            if op[1:] == 'div':
                return q
            return from_lf(w, (e[0] - q * bb, e[1]))
    return sym_bin(op, w, a, b)


def pbits(st, w, v):
    if type(v) is int:
        return v
    full = (1 << w) - 1
    lo, hi = st.hull(v.c, v.t)
    m = full if lo < 0 or hi > full else (1 << hi.bit_length()) - 1
    tz = min([v2(k) for a, k in v.t] + [v2(v.c) if v.c else 64])
    return m & ~((1 << min(tz, w)) - 1)


def sym_bin(op, w, a, b):
    if op in ('mul', 'and', 'or', 'xor'):
        ka = (0, a) if type(a) is int else (1, a._hash or hash(a))
        kb = (0, b) if type(b) is int else (1, b._hash or hash(b))
        if (ka, ) > (kb, ):
            a, b = b, a
    top = (1 << w) - 1
    lo, hi = 0, top
    if op == 'urem' and type(b) is int:
        hi = b - 1
    if op == 'srem' and type(b) is int and not b >> (w - 1):
        # keep unsigned representation of signed result: no tighter bound
        pass
    return S(w, 0, ((atom('bin', (op, w, a, b), lo, hi), 1),))


def ptr_arith(M, st, op, w, a, b):
    if op == 'sub' and type(a) is Ptr and type(b) is Ptr and a.o == b.o:
        return add(64, _o64(a.off), _o64(b.off), -1) if not (type(a.off) is int and type(b.off) is int) else (a.off - b.off) & M64
    if op in ('add', 'sub') and type(a) is Ptr and type(b) is not Ptr:
        return ptr_add(a, b, 1 if op == 'add' else -1)
    if op == 'add' and type(b) is Ptr:
        return ptr_add(b, a, 1)
    raise Gap('pointer arithmetic %s' % op)


def ptr_add(p, off, s=1):
    """off: width-64 value (unsigned rep)"""
    o = p.off
    if type(off) is int and type(o) is int:
        return Ptr(p.o, o + s * sgn(off, 64))
    x = add(64, _o64(o), off, s)
    if type(x) is int:
        x = sgn(x, 64)
    return Ptr(p.o, x)


def gen(M, fc, f, b, ins, reg, op, edge):
    o = ins.op
    ty = ins.ty
    if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
        d = reg(ins.dst)
        a = op(ty, ins.args[0])
        c = op(ty, ins.args[1])
        w = ty.w
        mask = (1 << w) - 1
        if o == 'add':
            def f_(st, fr, r):
                x = r[a]
                y = r[c]
                if type(x) is int and type(y) is int:
                    r[d] = (x + y) & mask
                else:
                    r[d] = binop(M, st, 'add', w, x, y)
            return f_
        if o == 'sub':
            def f_(st, fr, r):
                x = r[a]
                y = r[c]
                if type(x) is int and type(y) is int:
                    r[d] = (x - y) & mask
                else:
                    r[d] = binop(M, st, 'sub', w, x, y)
            return f_

        def f_(st, fr, r):
            r[d] = binop(M, st, o, w, r[a], r[c])
        return f_
    if o == 'icmp':
        d = reg(ins.dst)
        a = op(ty, ins.args[0])
        c = op(ty, ins.args[1])
        pred = ins.x
        w = 64 if isinstance(ty, IR.TPtr) else ty.w

        def f_(st, fr, r):
            x = r[a]
            y = r[c]
            if type(x) is Cond:
                x = to_int(M, st, x)
            if type(y) is Cond:
                y = to_int(M, st, y)
            if type(x) is int and type(y) is int:
                r[d] = int(icmp_const(pred, w, x, y))
            else:
                r[d] = mk_icmp(M, st, pred, w, x, y)
        return f_
    if o == 'load':
        d = reg(ins.dst)
        a = op(IR.PTR, ins.args[0])
        n = (ty.w + 7) // 8 if isinstance(ty, IR.TInt) else IR.size_of(ty)
        k = kind_of(ty)
        if isinstance(ty, (IR.TStruct, IR.TArr)):
            if isinstance(ty, IR.TArr):
                fields, offs = [ty.e] * ty.n, [IR.size_of(ty.e) * i for i in range(ty.n)]
            else:
                IR.layout(ty)
                fields, offs = ty.fields, ty.offs
            plan = [(offs[i], IR.size_of(t), kind_of(t), t) for i, t in enumerate(fields)]

            def f_(st, fr, r):
                p = r[a]
                M.resolve(st, p)
                if any(isinstance(t, (IR.TStruct, IR.TArr)) for _, _, _, t in plan):
                    raise Gap('nested aggregate load')
                r[d] = Agg(M.load(st, ptr_add(p, i), sz, kk) for i, sz, kk, t in plan)
            return f_
        w = ty.w if isinstance(ty, IR.TInt) else 64

        def f_(st, fr, r):
            v = M.load(st, r[a], n, k)
            if w == 1 and type(v) is int:
                v &= 1
            elif w == 1 and type(v) is S:
                v = to_int(M, st, mk_icmp(M, st, 'ne', 8, v, 0))
            r[d] = v
        return f_
    if o == 'store':
        v = op(ty, ins.args[0])
        a = op(IR.PTR, ins.args[1])
        n = (ty.w + 7) // 8 if isinstance(ty, IR.TInt) else IR.size_of(ty)
        if isinstance(ty, IR.TStruct):
            IR.layout(ty)
            plan = [(ty.offs[i], IR.size_of(t)) for i, t in enumerate(ty.fields)]

            def f_(st, fr, r):
                x, p = r[v], r[a]
                M.resolve(st, p)
                for i, (off, sz) in enumerate(plan):
                    y = UNDEF if x is UNDEF else x.v[i]
                    M.store(st, ptr_add(p, off), sz, to_int(M, st, y) if type(y) is Cond else y)
            return f_

        def f_(st, fr, r):
            x = r[v]
            if type(x) is Cond:
                x = to_int(M, st, x)
            M.store(st, r[a], n, x)
        return f_
    if o == 'extractvalue':
        d = reg(ins.dst)
        v = op(ty, ins.args[0])
        if len(ins.x) == 1:
            k = ins.x[0]

            def f_(st, fr, r):
                x = r[v]
                r[d] = x.v[k] if type(x) is Agg else UNDEF
            return f_
    if o == 'insertvalue' and len(ins.x[0]) == 1:
        d = reg(ins.dst)
        v = op(ty, ins.args[0])
        e = op(ins.x[1], ins.args[1])
        k = ins.x[0][0]
        nf = len(ty.fields) if isinstance(ty, IR.TStruct) else ty.n

        def f_(st, fr, r):
            x = r[v]
            xs = list(x.v) if type(x) is Agg else [UNDEF] * nf
            xs[k] = r[e]
            r[d] = Agg(xs)
        return f_
    if o == 'gep':
        d = reg(ins.dst)
        base = op(IR.PTR, ins.args[0][1])
        cur = ty
        const = 0
        var = []
        for j, (ot, ov) in enumerate(ins.args[1:]):
            if j == 0:
                sz = IR.size_of(cur)
            elif isinstance(cur, IR.TArr):
                cur = cur.e
                sz = IR.size_of(cur)
            else:
                IR.layout(cur)
                const += cur.offs[ov]
                cur = cur.fields[ov]
                continue
            if isinstance(ov, IR.Reg):
                var.append((reg(ov.name), ot.w, sz))
            else:
                const += sgn(ov, ot.w) * sz
        if not var:
            def f_(st, fr, r):
                p = r[base]
                if type(p) is Ptr and type(p.off) is int:
                    r[d] = Ptr(p.o, p.off + const)
                else:
                    r[d] = gep_slow(M, st, p, const, ())
            return f_

        def f_(st, fr, r):
            p = r[base]
            off = const
            if type(p) is Ptr and type(p.off) is int:
                for i, w, sz in var:
                    x = r[i]
                    if type(x) is not int:
                        break
                    off += sgn(x, w) * sz
                else:
                    r[d] = Ptr(p.o, p.off + off)
                    return
            r[d] = gep_slow(M, st, p, const, [(r[i], w, sz) for i, w, sz in var])
        return f_
    if o == 'br':
        c = op(IR.INT(1), ins.args[0])
        e1 = edge(b, ins.args[1].strip('"'))
        e2 = edge(b, ins.args[2].strip('"'))

        def f_(st, fr, r):
            x = r[c]
            if type(x) is not int:
                x = decide(M, st, x)
            go(M, st, fr, r, e1 if x else e2)
        return f_
    if o == 'jmp':
        e1 = edge(b, ins.args[0].strip('"'))
        if not e1[1] and e1[2] is None:
            ip = e1[0]

            def f_(st, fr, r):
                fr.ip = ip
            return f_

        def f_(st, fr, r):
            go(M, st, fr, r, e1)
        return f_
    if o == 'switch':
        v = op(ty, ins.args[0])
        w = ty.w
        de = edge(b, ins.args[1].strip('"'))
        cases = {}
        for cv, lab in ins.args[2]:
            cases[cv] = edge(b, lab.strip('"'))

        def f_(st, fr, r):
            x = to_int(M, st, r[v])
            if type(x) is int:
                go(M, st, fr, r, cases.get(x, de))
                return
            if x is UNDEF:
                raise Alarm('uninitialised', 'switch on uninitialised value')
            # decide case by case
            for cv, e in cases.items():
                t = try_icmp(M, st, 'eq', w, x, cv)
                if t is None:
                    raise Fork(icmp_alts(M, st, 'eq', w, x, cv))
                if t:
                    go(M, st, fr, r, e)
                    return
            go(M, st, fr, r, de)
        return f_
    if o == 'ret':
        v = op(f.ret, ins.args[0]) if ins.args else None

        def f_(st, fr, r):
            x = r[v] if v is not None else None
            if type(x) is Cond:
                x = to_int(M, st, x)
            if fr.allocas:
                for i in fr.allocas:
                    st.objs.pop(i, None)
            fs = st.frames
            fs.pop()
            if fs:
                top = fs[-1]
                st.top = top
                if fr.cont is not None:
                    fr.cont(M, st, x)
                elif fr.ret is not None:
                    top.regs[fr.ret] = x
                st.retval = x
            else:
                st.top = None
                st.retval = x
        return f_
    if o == 'alloca':
        d = reg(ins.dst)
        n = IR.size_of(ty)
        nm = '%s:%s' % (f.name, ins.dst)
        cnt = ins.args[0]
        ci = None if type(cnt) is int else op(IR.INT(64), cnt)
        if type(cnt) is int:
            n *= cnt

        def f_(st, fr, r):
            sz = n
            if ci is not None:
                k = M.split(st, r[ci], 64, False, 64)
                if k is None:
                    raise Gap('vla')
                sz = n * k
            ob = st.new_obj(sz, 'stack', nm)
            if fr.allocas is None:
                fr.allocas = [ob.id]
            else:
                fr.allocas.append(ob.id)
            r[d] = Ptr(ob.id, 0)
        return f_
    if o == 'call':
        d = reg(ins.dst) if ins.dst is not None else None
        args = [op(t, v) for t, v in ins.args]
        byval = [(i, t.byval) for i, (t, v) in enumerate(ins.args) if isinstance(t, IR.TByval)]
        w = ty.w if isinstance(ty, IR.TInt) else None
        callee = ins.x
        if isinstance(callee, IR.Reg):
            ci = reg(callee.name)

            def f_(st, fr, r):
                av = [r[i] for i in args]
                for i in range(len(av)):
                    if type(av[i]) is Cond:
                        av[i] = to_int(M, st, av[i])
                for i, n in byval:
                    av[i] = copy_arg(M, st, fr, av[i], n)
                M.call_ptr(st, fr, r[ci], av, d, w)
            return f_
        name = callee.name

        def f_(st, fr, r):
            av = [r[i] for i in args]
            for i in range(len(av)):
                if type(av[i]) is Cond:
                    av[i] = to_int(M, st, av[i])
            for i, n in byval:
                av[i] = copy_arg(M, st, fr, av[i], n)
            M.do_call(st, fr, name, av, d, w)
        return f_
    if o in ('trunc', 'zext', 'sext'):
        d = reg(ins.dst)
        a = op(ins.x, ins.args[0])
        w1 = ins.x.w
        w2 = ty.w
        if o == 'trunc':
            mask = (1 << w2) - 1

            def f_(st, fr, r):
                x = r[a]
                if type(x) is int:
                    r[d] = x & mask
                elif type(x) is S:
                    r[d] = trunc(x, w2)
                elif x is UNDEF or type(x) is Cond:
                    r[d] = x
                elif type(x) is Parts and w2 % 8 == 0 and x.sub(0, w2 // 8) is not None:
                    r[d] = x.sub(0, w2 // 8)
                else:
                    raise Alarm('type-confusion', 'truncation of a pointer')
            return f_
        if o == 'zext':
            def f_(st, fr, r):
                x = r[a]
                if type(x) is int:
                    r[d] = x
                elif type(x) is S:
                    r[d] = from_lf(w2, uext(st, x, w1, False))
                elif type(x) is Cond:
                    r[d] = to_int(M, st, x)
                elif x is UNDEF:
                    r[d] = x
                else:
                    raise Alarm('type-confusion', 'integer operation on a pointer')
            return f_

        def f_(st, fr, r):
            x = r[a]
            if type(x) is int:
                r[d] = sgn(x, w1) & ((1 << w2) - 1)
            elif type(x) is S:
                r[d] = from_lf(w2, uext(st, x, w1, True))
            elif type(x) is Cond:
                r[d] = (1 << w2) - 1 if to_int(M, st, x) else 0
            elif x is UNDEF:
                r[d] = x
            else:
                raise Alarm('type-confusion', 'integer operation on a pointer')
        return f_
    if o == 'select':
        c = op(IR.INT(1), ins.args[0])
        a = op(ty, ins.args[1])
        e = op(ty, ins.args[2])
        d = reg(ins.dst)

        def f_(st, fr, r):
            r[d] = r[a] if decide(M, st, r[c]) else r[e]
        return f_
    if o == 'ptrtoint':
        d = reg(ins.dst)
        a = op(IR.PTR, ins.args[0])
        w = ty.w

        def f_(st, fr, r):
            x = r[a]
            if w != 64 and type(x) is int:
                x &= (1 << w) - 1
            r[d] = x
        return f_
    if o in ('inttoptr', 'bitcast', 'freeze'):
        d = reg(ins.dst)
        a = op(ins.x if o != 'freeze' else ty, ins.args[0])

        def f_(st, fr, r):
            r[d] = r[a]
        return f_
    if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        d = reg(ins.dst)
        a = op(ty, ins.args[0])
        c = op(ty, ins.args[1])
        single = ty.w == 32

        def f_(st, fr, r):
            x, y = fval(r[a]), fval(r[c])
            if x is UNDEF or y is UNDEF:
                r[d] = UNDEF
            elif type(x) is float and type(y) is float:
                z = fbin(o, x, y)
                r[d] = to_single(z) if single else z
            else:
                if o in ('fadd', 'fmul') and repr(x) > repr(y):
                    x, y = y, x
                r[d] = F(o, (x, y))
        return f_
    if o == 'fneg':
        d = reg(ins.dst)
        a = op(ty, ins.args[0])

        def f_(st, fr, r):
            x = r[a]
            r[d] = -x if type(x) is float else UNDEF if x is UNDEF else F('fneg', (x,))
        return f_
    if o == 'fcmp':
        d = reg(ins.dst)
        a = op(ty, ins.args[0])
        c = op(ty, ins.args[1])
        pred = ins.x

        def f_(st, fr, r):
            x, y = fval(r[a]), fval(r[c])
            if x is UNDEF or y is UNDEF:
                raise Alarm('uninitialised', 'comparison of uninitialised value')
            if type(x) is float and type(y) is float:
                r[d] = int(fcmp_const(pred, x, y))
            else:
                key, neg = fcmp_key(pred, x, y)
                r[d] = Cond('fcmp', key, neg)
        return f_
    if o in ('sitofp', 'uitofp'):
        d = reg(ins.dst)
        a = op(ins.x, ins.args[0])
        w = ins.x.w
        single = ty.w == 32
        signed = o == 'sitofp'

        def f_(st, fr, r):
            x = to_int(M, st, r[a])
            if type(x) is int:
                z = float(sgn(x, w) if signed else x)
                r[d] = to_single(z) if single else z
            elif x is UNDEF:
                r[d] = x
            elif type(x) is S:
                r[d] = F('i2f', (w, signed, x))
            else:
                raise Alarm('type-confusion', 'conversion of a pointer to floating point')
        return f_
    if o in ('fptosi', 'fptoui'):
        d = reg(ins.dst)
        a = op(ins.x, ins.args[0])
        w = ty.w

        def f_(st, fr, r):
            x = fval(r[a])
            if x is UNDEF:
                r[d] = x
            elif type(x) is float:
                r[d] = f2i_const(x, w, o == 'fptosi')
            else:
                r[d] = S(w, 0, ((atom('f2i', (w, o == 'fptosi', x), 0, (1 << w) - 1), 1),))
        return f_
    if o in ('fpext', 'fptrunc'):
        d = reg(ins.dst)
        a = op(ins.x, ins.args[0])

        def f_(st, fr, r):
            x = r[a]
            if o == 'fptrunc' and type(x) is float:
                x = to_single(x)
            r[d] = x
        return f_
    if o == 'unreachable':
        def f_(st, fr, r):
            raise ExitPath('unreachable')
        return f_

    def f_(st, fr, r):
        raise Gap('instruction %s' % o)
    return f_


def copy_arg(M, st, fr, p, n):
    """a structure passed by value: the callee gets its own copy"""
    so, off = M.resolve(st, p)
    M.check_bounds(st, so, off, n, 'read')
    ob = st.new_obj(n, 'stack', 'argument')
    for k, (sz, v) in so.cells.items():
        if off <= k and k + sz <= off + n:
            ob.cells[k - off] = (sz, v)
    ob.default = so.default
    if fr.allocas is None:
        fr.allocas = [ob.id]
    else:
        fr.allocas.append(ob.id)
    return Ptr(ob.id, 0)


def fval(x):
    if type(x) is int and x == 0:
        return 0.0
    if type(x) in (int, S, Ptr):
        raise Alarm('type-confusion', 'floating-point operation on %r' % (x,))
    return x


def to_single(z):
    import struct
    return struct.unpack('f', struct.pack('f', z))[0]


def uext(st, x, w, signed):
    """integer linear form of x (width w) read signed/unsigned: no forking, path facts may help"""
    lo, hi = st.hull(x.c, x.t)
    base = -(1 << (w - 1)) if signed else 0
    q1 = (lo - base) >> w
    if q1 == (hi - base) >> w:
        return (x.c - (q1 << w), x.t)
    return s_lf(x, w) if signed else u_lf(x, w)


def gep_slow(M, st, p, const, var):
    if p is UNDEF:
        raise Alarm('uninitialised', 'use of uninitialised pointer')
    off = const & M64
    for x, w, sz in var:
        if x is UNDEF:
            raise Alarm('uninitialised', 'use of uninitialised index')
        if type(x) is Cond:
            x = to_int(M, st, x)
        if type(x) is int:
            off = add(64, off, (sgn(x, w) * sz) & M64)
        else:
            if type(x) is Ptr:
                raise Alarm('type-confusion', 'pointer used as index')
            e = (x.c, x.t) if w == 64 else uext(st, x, w, True)
            off = add(64, off, mulc(64, from_lf(64, e), sz))
    if type(p) is int:
        if p == 0:
            if type(off) is int and off == 0:
                return 0
            # address computation on null: faults when used
            return NullOff
        if type(off) is int:
            return (p + off) & M64
        return add(64, p, off)
    if type(p) is not Ptr:
        if p is NullOff:
            return p
        raise Alarm('wild-pointer', 'address computed from non-pointer %r' % (p,))
    return ptr_add(p, off)


NullOff = 1 << 63      # any access through it is reported as a wild pointer
