"""Shared subject builders and observations."""
from vals import *
from machine import inp, Gap
import oracle
from oracle import REGS, INSTR, opbytes
from check import Case, ANY, OneOf, compare

MIN64, MAX64 = -(1 << 63), (1 << 63) - 1
CACHE = {}


def v64(name='v', lo=MIN64, hi=MAX64):
    return inp(name, 64, lo, hi)


def A(v):
    """the single atom of an input value"""
    return v.t[0][0]


def lin(v, lo, hi, c=0):
    """fact lo <= v+c <= hi, v an input (no wrap) or an (c, terms) integer form"""
    if type(v) is S:
        return ('lin', v.c + c, v.t, lo, hi)
    return ('lin', v[0] + c, v[1], lo, hi)


def lform(c, *pairs):
    """integer linear form c + sum k*v over input values"""
    t = {}
    for v, k in pairs:
        for a, ka in v.t:
            t[a] = t.get(a, 0) + k * ka
        c += k * v.c
    return (c, tuple(sorted(((a, k) for a, k in t.items() if k), key=lambda z: z[0].id)))


def umod(m, lf):
    """(lf mod 2^m) as an integer form"""
    return mkU(m, lf[0], dict(lf[1]))


def smod(m, lf):
    """lf wrapped to the signed m-bit range, as integer form"""
    h = 1 << (m - 1)
    u = mkU(m, lf[0] + h, dict(lf[1]))
    return (u[0] - h, u[1])


def byte(v, k=0, w=8):
    """bits k..k+w-1 of an input value / form"""
    c, t = (v.c, dict(v.t)) if type(v) is S else (v, {}) if type(v) is int else (v[0], dict(v[1]))
    return from_lf(w, mkD(k, k + w, c, t)) if k else mk(w, c, t)


def be(v, n):
    return [byte(v, 8 * (n - 1 - i)) for i in range(n)]


def outside(v, lo, hi, big=1 << 70):
    """two alternative guards: below lo, above hi"""
    return [[lin(v, -big, lo - 1)], [lin(v, hi + 1, big)]]


def asm(ctx, lines, isa=0, setdp=(1 << 32) - 1, pass_=0, listing=0, verbosity=0, depth=8, pre=None, start=None, keep=None, name='in.s'):
    """all partitions of assembling these lines"""
    st = (start or ctx.start)(isa=isa, setdp=setdp, listing=listing, verbosity=verbosity, depth=depth)
    if pre:
        st = pre(st)
    st, p = ctx.prog(st, lines, name=name)
    return ctx.M.run(st, 'assemble_prog', [p, pass_])


def errs(ctx):
    E = ctx.d.enums
    need = ('error_type_illegal', 'error_type_inconsistent', 'error_type_inefficient')
    for n in need:
        if n not in E:
            from drv import AnchorMissing
            raise AnchorMissing('enum %s' % n)
    return E


def cls_of(ctx, level):
    E = errs(ctx)
    if type(level) is not int:
        raise Gap('symbolic error level')
    return 'ok' if level <= E['error_type_illegal'] else 'err'


def line_obs(ctx, span=0):
    def f(p):
        if p.status == 'exit':
            return {'cls': 'exit', 'bytes': None, 'org': None, 'put': None, 'n': 0, 'level': None}
        st = p.st
        sp = ctx.spans(st)
        lv = ctx.errlevel(st)
        r = {'cls': cls_of(ctx, lv), 'level': lv, 'n': len(sp)}
        tot = [x for x in sp if x[2] != 0]
        r['bytes'] = []
        r['org'] = r['put'] = None
        if len(tot) == 1:
            r['org'], r['put'], _, r['bytes'] = tot[0]
        elif tot:
            r['bytes'] = [b for s in tot for b in (s[3] or [None])]
        return r
    return f


def reg(name):
    return ('reg', REGS[name])


def attr(ctx, spec, name):
    E = ctx.d.enums
    if name not in E:
        from drv import AnchorMissing
        raise AnchorMissing('enum %s' % name)
    return ('attr', spec, E[name])


def imm(ctx, s):
    return attr(ctx, s, 'node_attr_immediate')


def a8(ctx, s):
    return attr(ctx, s, 'node_attr_8bit')


def a16(ctx, s):
    return attr(ctx, s, 'node_attr_16bit')


def a5(ctx, s):
    return attr(ctx, s, 'node_attr_5bit')


# ---- expected values in the analysis' normal form

def bop(ctx, op, a, b, w=64):
    import codegen
    return codegen.binop(ctx.M, ctx.M.base, op, w, a, b)


def i2f(v):
    return float(v) if type(v) is int else F('i2f', (64, True, v))


def f2i(f):
    if type(f) is float:
        return int(f) & ((1 << 64) - 1)
    return S(64, 0, ((atom('f2i', (64, True, f), 0, (1 << 64) - 1), 1),))


def fop(op, x, y):
    if type(x) is float and type(y) is float:
        return fbin(op, x, y)
    if op in ('fadd', 'fmul') and repr(x) > repr(y):
        x, y = y, x
    return F(op, (x, y))


def fin(name):
    return F('in', (name,))


def fcond(pred, x, y, truth):
    """guard fact: floating comparison, in canonical direction"""
    key, neg = fcmp_key(pred, x, y)
    return ('cond', key, truth != neg)


def rel(pred, a, b):
    """guards (true list, false list): each a list of alternative fact lists, for signed comparison of two 64-bit values"""
    d = lform((a if type(a) is int else 0) - (b if type(b) is int else 0), *([(a, 1)] if type(a) is not int else []), *([(b, -1)] if type(b) is not int else []))
    B = 1 << 66
    lt, eq, gt = [lin(d, -B, -1)], [lin(d, 0, 0)], [lin(d, 1, B)]
    t = {'<': [lt], '<=': [lt, eq], '==': [eq], '!=': [lt, gt], '>': [gt], '>=': [eq, gt]}[pred]
    f = [x for x in (lt, eq, gt) if x not in t]
    return t, f


def sym_value(ctx, st, name):
    """(kind, value) of a symbol, or None when undefined; value normalised"""
    st2, k = ctx.cstr(st, name)
    st2, n = ctx.call(st2, 'symbol_try_get', k)
    return node_value(ctx, st2, n)


def node_value(ctx, st, n):
    if type(n) is not Ptr:
        return None
    E = ctx.d.enums
    t = ctx.get(st, n, 'node', 'type')
    p = Ptr(n.o, n.off + ctx.field('node', 'data')[0])
    M = ctx.M
    if t == E['node_type_int']:
        return ('int', M.load(st, p, 8, 'i'))
    if t == E['node_type_float']:
        return ('float', M.load(st, p, 8, 'f'))
    if t == E['node_type_reg']:
        return ('reg', M.load(st, p, 4, 'i'))
    if t in (E['node_type_string'], E['node_type_interp']):
        import natives
        q = M.load(st, p, 8, 'p')
        return ('string' if t == E['node_type_string'] else 'interp', cbytes(ctx, st, q))
    for nm, v in E.items():
        if nm.startswith('node_type_') and v == t:
            return (nm[10:], None)
    return ('?', None)


def cbytes(ctx, st, q):
    """bytes of a C string (abstract bytes allowed)"""
    out = []
    if type(q) is not Ptr:
        return None
    i = 0
    while True:
        b = ctx.M.load(st, Ptr(q.o, q.off + i), 1, 'i')
        if type(b) is int and b == 0:
            return out
        out.append(b)
        i += 1
        if i > 262144:
            raise Gap('unterminated string')


def value_obs(ctx, name='r'):
    def f(p):
        if p.status == 'exit':
            return {'cls': 'exit', 'kind': None, 'value': None}
        st = p.st
        v = sym_value(ctx, st, name)
        return {'cls': cls_of(ctx, ctx.errlevel(st)), 'kind': v[0] if v else None, 'value': v[1] if v else None, 'defined': v is not None}
    return f


# ---- source text

def tree(ctx, st, n):
    """syntax tree of a node as nested tuples ('op', code, ...), ('arr', ...), ('int', v), ('id', parts...), ..."""
    E = ctx.d.enums
    if type(n) is not Ptr:
        return None
    M = ctx.M
    t = ctx.get(st, n, 'node', 'type')
    at = ctx.get(st, n, 'node', 'attr')
    nm = next((k[10:] for k, v in E.items() if k.startswith('node_type_') and v == t), '?')
    p = Ptr(n.o, n.off + ctx.field('node', 'data')[0])
    if nm in ('oper', 'array'):
        s = 'node_' + nm
        k = ctx.get(st, p, s, 'nargs')
        a = ctx.get(st, p, s, 'args', kind='p')
        if type(k) is not int:
            raise Gap('symbolic argument count')
        r = tuple(tree(ctx, st, M.load(st, Ptr(a.o, a.off + 8 * i), 8, 'p')) for i in range(k))
        r = ('op', ctx.get(st, p, s, 'oper')) + r if nm == 'oper' else ('arr',) + r
    elif nm in ('int', 'backref', 'fwdref'):
        r = ({'int': 'int', 'backref': 'back', 'fwdref': 'fwd'}[nm], M.load(st, p, 8, 'i'))
    elif nm == 'float':
        r = ('float', M.load(st, p, 8, 'f'))
    elif nm in ('id', 'text'):
        r = (nm,) + tuple(tree(ctx, st, x) for x in ctx.slist(st, M.load(st, p, 8, 'p')))
    elif nm in ('string', 'interp'):
        r = ({'string': 'str', 'interp': 'interp'}[nm], tuple(cbytes(ctx, st, M.load(st, p, 8, 'p'))))
    elif nm == 'reg':
        r = ('reg', M.load(st, p, 4, 'i'))
    else:
        r = (nm,)
    if at == E['node_attr_none']:
        return r
    an = next((k[10:] for k, v in E.items() if k.startswith('node_attr_') and v == at), at)
    return ('attr', r, an)


def parse(ctx, src, isa=0, name='x.s', assume=()):
    """partitions of reading this source text (list of bytes, possibly abstract) with the program's own parser"""
    if isinstance(src, (str, bytes)):
        src = list(src.encode('latin-1') if isinstance(src, str) else src)
    ctx.M.files = {name.encode(): src}
    st = ctx.start(isa=isa)
    st, p = ctx.cstr(st, name)
    if assume and not st.assume(list(assume)):
        return []
    old, ctx.M.sel_limit = ctx.M.sel_limit, 1000
    try:
        return ctx.M.run(st, 'grammar_parse_file', [p], widen=False)
    finally:
        ctx.M.sel_limit = old


def parsed(ctx, p):
    """[(label, opcode, args)] syntax trees of a parsed program"""
    st = p.st
    out = []
    if type(p.value) is not Ptr:
        return None
    for l in ctx.slist(st, ctx.get(st, p.value, 'prog', 'lines', kind='p')):
        out.append(tuple(tree(ctx, st, ctx.get(st, l, 'prog_line', f, kind='p')) for f in ('label', 'opcode', 'args')))
    return out


def parse_obs(ctx):
    """the class of the diagnostics and the parsed lines"""
    def f(p):
        if p.status == 'exit':
            return {'cls': 'exit', 'lines': None}
        return {'cls': cls_of(ctx, ctx.errlevel(p.st)), 'lines': parsed(ctx, p)}
    return f


def S_(s):
    """bytes of a string as a tuple"""
    return tuple(s.encode('latin-1')) if isinstance(s, str) else tuple(s)


def name_node(s):
    return ('id', ('str', S_(s)))


# ---- what was written to streams

def out_events(st, name):
    """tokens written to the stream opened under this name ('stdout', 'stderr' or a file name), in order"""
    ids = {o.id for o in st.objs.values() if getattr(o, 'kind', None) == 'file' and o.name == name}
    toks = []
    for e in st.events():
        if e[0] == 'fopen' and bytes(e[2]) == name.encode('latin-1') if e[0] == 'fopen' and all(type(b) is int for b in e[2]) else False:
            ids.add(e[1])
        elif e[0] == 'out' and (e[1] in ids or e[1] == name):
            toks.extend(e[2])
    return merge_hex(toks)


def text(toks):
    """printable form; abstract parts as '?'"""
    return ''.join(chr(t[1]) if t[0] == 'byte' and type(t[1]) is int else '?' for t in toks)


def messages(ctx, st):
    """the lines error_print_list would write to standard error"""
    st2 = ctx.call(st, 'error_print_list')[0]
    return text(out_events(st2, 'stderr')[len(out_events(st, 'stderr')):]).splitlines()


# ---- the whole program

def run_main(ctx, argv, files, faults=(), assume=(), sel=1000):
    """partitions of the whole program run with these arguments (lists of bytes, possibly abstract, or strings) and files"""
    ctx.need('main')
    M = ctx.M
    M.files = {k.encode(): (list(v.encode('latin-1')) if isinstance(v, str) else list(v)) for k, v in files.items()}
    st = M.base.clone()
    ps = []
    for a in ['asm6809'] + list(argv):
        st, p = ctx.cstr(st, a)
        ps.append(p)
    o = st.new_obj(8 * (len(ps) + 1), 'argv', 'heap')
    for i, p in enumerate(ps + [0]):
        M.store(st, Ptr(o.id, 8 * i), 8, p)
    if assume and not st.assume(list(assume)):
        return []
    of, ol = M.faults, M.sel_limit
    M.faults, M.sel_limit, M.closed_world = set(faults), sel, True
    try:
        return M.run(st, 'main', [len(ps), Ptr(o.id, 0)], widen=False)
    finally:
        M.faults, M.sel_limit, M.closed_world = of, ol, False


def exit_code(p):
    """exit status of a partition of main, or None"""
    return p.value if p.status in ('exit', 'ret') else None


def streams(st):
    """what happened to files: {name: (mode, opened ok, [tokens], closed, failed)} for every fopen, in order"""
    out, ids = [], {}
    for e in st.events():
        if e[0] == 'fopen':
            r = {'name': bytes(b if type(b) is int else 63 for b in e[2]).decode('latin-1'), 'mode': e[3], 'opened': True, 'out': [], 'closed': False, 'failed': False}
            ids[e[1]] = r
            out.append(r)
        elif e[0] == 'fopen-failed':
            out.append({'name': bytes(b if type(b) is int else 63 for b in e[1]).decode('latin-1'), 'mode': e[2], 'opened': False, 'out': [], 'closed': True, 'failed': True})
        elif e[0] == 'out' and e[1] in ids:
            ids[e[1]]['out'].extend(e[2])
        elif e[0] == 'write-failed' and e[1] in ids:
            ids[e[1]]['failed'] = True
        elif e[0] == 'fclose' and e[1] in ids:
            ids[e[1]]['closed'] = True
            if e[2]:
                ids[e[1]]['failed'] = True
    for r in out:
        r['out'] = merge_hex(r['out'])
    return out
