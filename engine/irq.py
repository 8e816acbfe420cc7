"""Structural queries over the IR: call sites, call graph, control-flow graph, strongly connected components."""
import ir as IR


def callee(i):
    return i.x.name if i.op == 'call' and type(i.x) is IR.CGlobal else None


def instrs(ctx, fn=None):
    for f in ([ctx.m.funcs[fn]] if fn else ctx.m.funcs.values()):
        for b in f.order:
            for i in f.blocks[b]:
                yield f, b, i


def calls(ctx, *names):
    """(function, instruction, source location, argument values) of every call to one of these"""
    for f, b, i in instrs(ctx):
        if callee(i) in names:
            yield f.name, i, ctx.d.loc(i.dbg), [a[1] for a in i.args]


def const_int(v):
    return v if type(v) is int else None


def is_null(v):
    return type(v) is int and v == 0


def string(ctx, v):
    """bytes of a constant string operand, or None"""
    if type(v) is IR.CGlobal:
        g = ctx.m.globals.get(v.name)
        if g and type(g[1]) is IR.CStr:
            return bytes(g[1].b)[:-1]
        if g and g[1] is IR.CZERO:
            return b''
    return None


def refs(v, out):
    """global names referenced by an operand"""
    if type(v) is IR.CGlobal:
        out.add(v.name)
    elif type(v) is IR.CAgg:
        for t, x in v.elems:
            refs(x, out)
    elif isinstance(v, IR.CExpr):
        for x in walk(v):
            refs(x, out)


def walk(e):
    todo = [getattr(e, s) for s in e.__slots__]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(x)
        elif type(x) is IR.CGlobal or type(x) is IR.CAgg or isinstance(x, IR.CExpr):
            yield x


def address_taken(ctx):
    """functions whose address is used other than as a direct callee"""
    out = set()
    for n, (t, v, c) in ctx.m.globals.items():
        if v is not None:
            refs(v, out)
    for f, b, i in instrs(ctx):
        ops = list(i.args) if i.op != 'call' else [a[1] for a in i.args]
        for o in ops:
            for x in (o if isinstance(o, (tuple, list)) else (o,)):
                for y in (x if isinstance(x, (tuple, list)) else (x,)):
                    refs(y, out)
    return {x for x in out if x in ctx.m.funcs}


def call_graph(ctx, indirect=True):
    """{function: set of callees}; an indirect call may reach any function whose address is taken"""
    taken = address_taken(ctx)
    g = {}
    for f in ctx.m.funcs.values():
        s = g[f.name] = set()
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call':
                    c = callee(i)
                    if c is None:
                        if indirect:
                            s |= taken
                    else:
                        s.add(c)
    return g


def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'jmp':
        return [t.args[0]]
    if t.op == 'br':
        return [t.args[1], t.args[2]]
    if t.op == 'switch':
        return [t.args[1]] + [x for _, x in t.args[2]]
    return []


def sccs(g):
    """strongly connected components (Tarjan, iterative); g: {node: iterable}"""
    idx, low, on, st, out = {}, {}, set(), [], []
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(g.get(r, ())))]
        idx[r] = low[r] = len(idx)
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def literals(ctx, f, v, seen=None):
    """the literal strings an operand of f can be, through choices and parameters of functions that are only called
    directly; None when it can be anything else"""
    seen = set() if seen is None else seen
    s = string(ctx, v)
    if s is not None:
        return {s}
    if is_null(v):
        return set()
    if type(v) is not IR.Reg:
        return None
    v = v.name
    if (f.name, v) in seen:
        return set()
    seen.add((f.name, v))
    out = set()

    def put(g, x):
        r = literals(ctx, g, x, seen)
        if r is None:
            return False
        out.update(r)
        return True
    for k, (t, n) in enumerate(f.params):
        if n == v:
            if f.name in address_taken(ctx):
                return None
            for g, b, i in instrs(ctx):
                if callee(i) == f.name and not put(g, i.args[k][1]):
                    return None
            return out
    for b in f.order:
        for i in f.blocks[b]:
            if i.dst == v:
                xs = [x[0] for x in i.args] if i.op == 'phi' else i.args[1:] if i.op == 'select' else None
                if xs is None or not all(put(f, x) for x in xs):
                    return None
                return out
    return None
