"""Models of the C library (and gnulib allocation wrappers) used by the program.

Every model decides all its questions (raising Fork) before its first side effect, because a
forking instruction is re-interpreted in each alternative.
"""
from vals import *
from machine import Fork, Alarm, Gap, ExitPath

M64 = (1 << 64) - 1


# ---------------------------------------------------------------- helpers

def size_val(M, st, v, what='size'):
    """allocation size: python int or linear form"""
    if v is UNDEF:
        raise Alarm('uninitialised', 'uninitialised ' + what)
    if type(v) is int:
        return v
    c, t = st.exact(v, 64, False)
    if not t:
        return c
    ivs = st.ivals(c, t)
    if ivs[0][0] == ivs[-1][1]:
        return ivs[0][0]
    return (c, t)


def question(M, st, tag):
    """two-valued environment choice (I/O failure etc.); numbered per state"""
    n = st.user.get('q', 0)
    key = ('env', tag, n)
    v = st.conds.get(key)
    if v is None:
        raise Fork([[('cond', key, False)], [('cond', key, True)]])
    st.user['q'] = n + 1
    return v


def ch(M, st, p, i):
    """byte at p+i"""
    q = Ptr(p.o, p.off + i) if type(p) is Ptr and type(p.off) is int else p
    if type(q) is Ptr and type(q.off) is not int:
        raise Gap('string at symbolic offset')
    v = M.load(st, q, 1, 'i')
    if v is UNDEF:
        raise Alarm('uninitialised', 'string byte never written')
    return v


def decide_byte(M, st, v, b):
    """is byte value v == b?"""
    from codegen import try_icmp, icmp_alts
    if type(v) is int:
        return v == b
    r = try_icmp(M, st, 'eq', 8, v, b)
    if r is None:
        raise Fork(icmp_alts(M, st, 'eq', 8, v, b))
    return r


def decide(M, st, pred, w, a, b):
    from codegen import try_icmp, icmp_alts
    r = try_icmp(M, st, pred, w, a, b)
    if r is None:
        raise Fork(icmp_alts(M, st, pred, w, a, b))
    return r


def string(M, st, p, limit=1 << 16):
    """list of byte values up to the terminator"""
    if type(p) is not Ptr:
        M.resolve(st, p)
    out = []
    while True:
        v = ch(M, st, p, len(out))
        if decide_byte(M, st, v, 0):
            return out
        out.append(v)
        if len(out) > limit:
            raise Gap('string too long')


def pystr(M, st, p):
    """python str of a concrete string, or None"""
    s = string(M, st, p)
    if all(type(b) is int for b in s):
        return bytes(s).decode('latin1')
    return None


def new_str(M, st, bs, kind='heap'):
    o = st.new_obj(len(bs) + 1, kind, 'string')
    for i, b in enumerate(bs):
        o.cells[i] = (1, b)
    o.cells[len(bs)] = (1, 0)
    return Ptr(o.id, 0)


# ---------------------------------------------------------------- allocation

def n_malloc(M, st, a):
    n = size_val(M, st, a[0])
    o = st.new_obj(n, 'heap', 'malloc@' + M.loc(st))
    return Ptr(o.id, 0)


def n_calloc(M, st, a):
    n = size_val(M, st, a[0])
    m = size_val(M, st, a[1])
    if type(n) is not int or type(m) is not int:
        raise Gap('calloc of symbolic size')
    o = st.new_obj(n * m, 'heap', 'calloc@' + M.loc(st), 0)
    return Ptr(o.id, 0)


def n_realloc(M, st, a):
    p, nv = a
    n = size_val(M, st, nv)
    if type(p) is int and p == 0:
        return n_malloc(M, st, [nv])
    o, off = M.resolve(st, p)
    if off != 0 or o.kind != 'heap':
        raise Alarm('bad-free', 'realloc of a pointer that was not allocated')
    new = st.new_obj(n, 'heap', o.name, o.default)
    new.cells = dict(o.cells)
    new.tag = o.tag
    if type(n) is int:
        for k in [k for k, (sz, v) in new.cells.items() if k + sz > n]:
            del new.cells[k]
    del st.objs[o.id]
    st.emit('realloc', o.id, new.id, n, o.size)
    return Ptr(new.id, 0)


def n_free(M, st, a):
    p = a[0]
    if type(p) is int and p == 0:
        return None
    if p is UNDEF:
        raise Alarm('uninitialised', 'free of uninitialised pointer')
    if type(p) is not Ptr:
        raise Alarm('bad-free', 'free of %r' % (p,))
    o = st.objs.get(p.o)
    if o is None:
        raise Alarm('double-free', 'free of an already freed object')
    if o.kind != 'heap' or p.off != 0:
        raise Alarm('bad-free', 'free of a pointer that was not allocated (%s)' % (o.name or o.kind))
    del st.objs[p.o]
    return None


def n_strdup(M, st, a):
    return new_str(M, st, string(M, st, a[0]))


def n_strndup(M, st, a):
    n = M.split(st, a[1], 64, False, 4096)
    if n is None:
        raise Gap('strndup of symbolic length')
    out = []
    while len(out) < n:
        v = ch(M, st, a[0], len(out))
        if decide_byte(M, st, v, 0):
            break
        out.append(v)
    return new_str(M, st, out)


# ---------------------------------------------------------------- strings

def n_strlen(M, st, a):
    return len(string(M, st, a[0]))


def _cmp(M, st, a, b, n=None, fold=False):
    i = 0
    while n is None or i < n:
        x = ch(M, st, a, i)
        y = ch(M, st, b, i)
        if fold:
            if type(x) is int and 65 <= x <= 90:
                x += 32
            if type(y) is int and 65 <= y <= 90:
                y += 32
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else M64 >> 32
            if x == 0:
                return 0
        else:
            if x == y:
                if decide_byte(M, st, x, 0):
                    return 0
            elif not decide(M, st, 'eq', 8, x, y):
                return 1 if decide(M, st, 'ugt', 8, x, y) else M64 >> 32
            elif decide_byte(M, st, x, 0):
                return 0
        i += 1
        if i > 1 << 16:
            raise Gap('strcmp too long')
    return 0


def n_strcmp(M, st, a):
    return _cmp(M, st, a[0], a[1])


def n_strncmp(M, st, a):
    n = M.split(st, a[2], 64, False, 64)
    if n is None:
        raise Gap('strncmp of symbolic length')
    return _cmp(M, st, a[0], a[1], n)


def n_strcasecmp(M, st, a):
    return _cmp(M, st, a[0], a[1], None, True)


def n_strcpy(M, st, a):
    s = string(M, st, a[1])
    o, off = M.resolve(st, a[0])
    M.check_bounds(st, o, off, len(s) + 1, 'write')
    for i, b in enumerate(s + [0]):
        M.store(st, Ptr(o.id, off + i), 1, b)
    return a[0]


def n_strcat(M, st, a):
    d = string(M, st, a[0])
    s = string(M, st, a[1])
    o, off = M.resolve(st, a[0])
    M.check_bounds(st, o, off, len(d) + len(s) + 1, 'write')
    for i, b in enumerate(s + [0]):
        M.store(st, Ptr(o.id, off + len(d) + i), 1, b)
    return a[0]


def n_strchr(M, st, a, last=False):
    s = string(M, st, a[0])
    c = trunc(a[1], 8)
    res = 0
    for i, b in enumerate(s + [0]):
        if (b == c) if type(b) is int and type(c) is int else decide(M, st, 'eq', 8, b, c):
            res = Ptr(a[0].o, a[0].off + i)
            if not last:
                return res
    return res


def n_strrchr(M, st, a):
    return n_strchr(M, st, a, True)


def blk(M, st, p, n, what):
    """object, offset and bounds check for a block of n bytes; n python int or linear form"""
    o, off = M.resolve(st, Ptr(p.o, 0) if type(p) is Ptr and type(p.off) is not int else p)
    if type(p) is Ptr and type(p.off) is not int:
        off = p.off
    return o, off


def bounds_sym(M, st, o, off, n, what):
    """0 <= off, off+n <= size for symbolic off / n / size"""
    def lf(x, signed=False):
        if type(x) is int:
            return x, ()
        if type(x) is tuple:
            return x
        return st.exact(x, 64, signed)
    oc, ot = lf(off, True)
    nc, nt = lf(n)
    sc, sT = lf(o.size)
    d = {}
    for t, s in ((sT, 1), (ot, -1), (nt, -1)):
        for a, k in t:
            d[a] = d.get(a, 0) + s * k
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda z: z[0].id))
    c = sc - oc - nc
    lo, hi = st.hull(c, t)
    if lo >= 0:
        pass
    elif hi < 0:
        raise Alarm('out-of-bounds', '%s of %s byte(s) at offset %s of %s of size %s' % (what, fmt_lf(*lf(n)), fmt_lf(oc, ot), o.name or o.kind, fmt_lf(sc, sT)))
    else:
        raise Fork([[('lin', c, t, lo, -1)], [('lin', c, t, 0, hi)]])
    lo, hi = st.hull(oc, ot)
    if hi < 0:
        raise Alarm('out-of-bounds', '%s before the start of %s' % (what, o.name or o.kind))
    if lo < 0:
        raise Fork([[('lin', oc, ot, lo, -1)], [('lin', oc, ot, 0, hi)]])


def unknown_content(st, o, i):
    raise Gap('read of %s after a block operation of abstract extent' % (o.name or o.kind))


def havoc(M, st, o, off, n):
    """a block operation of abstract place or length: what the object holds there is not tracked"""
    def hull(x, signed):
        return (x, x) if type(x) is int else st.hull(*(x if type(x) is tuple else st.exact(x, 64, signed)))
    lo = hull(off, True)[0]
    hi = hull(off, True)[1] + hull(n, False)[1]
    for k in [k for k, (sz, v) in o.cells.items() if k < hi and k + sz > lo]:
        del o.cells[k]
    o.default = unknown_content


def short(M, st, n):
    """a block length of few possible values: one partition for each"""
    if type(n) is tuple and st.hull(*n)[1] <= 64:
        v = M.split(st, from_lf(64, n), 64, False, 65)
        return n if v is None else v
    return n


def null_block(M, st, p, n):
    """C17 7.24.1: zero-length block functions still need valid pointers; null+0 is tolerated here"""
    return False


def n_memset(M, st, a):
    p, c, nv = a[0], a[1], a[2]
    n = short(M, st, size_val(M, st, nv, 'length'))
    if type(n) is int and n == 0:
        return p
    if n is not None and type(n) is not int:
        lo, hi = st.hull(*n)
        if lo <= 0:
            if hi <= 0:
                return p
            raise Fork([[('lin', n[0], n[1], lo, 0)], [('lin', n[0], n[1], 1, hi)]])
    o, off = blk(M, st, p, n, 'write')
    if o.ro:
        raise Alarm('read-only-write', 'write to constant object %s' % o.name)
    if type(n) is int and type(off) is int and type(o.size) is int:
        M.check_bounds(st, o, off, n, 'write')
        b = trunc(c, 8)
        o = st.wobj(o.id)
        M.clear_range(o, off, n)
        if n > 200000:
            raise Gap('huge memset')
        for i in range(n):
            o.cells[off + i] = (1, b)
        st.emit('memset', o.id, off, b, n)
        return p
    bounds_sym(M, st, o, off, n, 'write')
    o = st.wobj(o.id)
    havoc(M, st, o, off, n)
    o.tag = (o.tag, ('memset', off, trunc(c, 8), n))
    st.emit('memset', o.id, off, trunc(c, 8), n)
    return p


def n_memcpy(M, st, a, move=False):
    d, s, nv = a[0], a[1], a[2]
    n = short(M, st, size_val(M, st, nv, 'length'))
    if type(n) is int and n == 0:
        return d
    if type(n) is not int:
        lo, hi = st.hull(*n)
        if lo <= 0:
            if hi <= 0:
                return d
            raise Fork([[('lin', n[0], n[1], lo, 0)], [('lin', n[0], n[1], 1, hi)]])
    so, soff = blk(M, st, s, n, 'read')
    do, doff = blk(M, st, d, n, 'write')
    if do.ro:
        raise Alarm('read-only-write', 'write to constant object %s' % do.name)
    if type(n) is int and type(soff) is int and type(doff) is int and type(so.size) is int and type(do.size) is int and so.tag is None:
        M.check_bounds(st, so, soff, n, 'read')
        M.check_bounds(st, do, doff, n, 'write')
        if so.id == do.id and not move and abs(soff - doff) < n and soff != doff:
            raise Alarm('overlap', 'memcpy between overlapping blocks')
        if n > 200000:
            raise Gap('huge memcpy')
        # copy cells lying wholly inside, others bytewise
        got = []
        i = soff
        while i < soff + n:
            c = so.cells.get(i)
            if c is not None and i + c[0] <= soff + n:
                got.append((i - soff, c[0], c[1]))
                i += c[0]
            else:
                got.append((i - soff, 1, M.load_slow(st, so, i, 1)))
                i += 1
        do = st.wobj(do.id)
        M.clear_range(do, doff, n)
        for o, sz, v in got:
            do.cells[doff + o] = (sz, v)
        return d
    bounds_sym(M, st, so, soff, n, 'read')
    bounds_sym(M, st, do, doff, n, 'write')
    do = st.wobj(do.id)
    havoc(M, st, do, doff, n)
    do.tag = (do.tag, ('memcpy', doff, so.id, so.tag, soff, n))
    st.emit('memcpy', do.id, doff, so.id, soff, n)
    return d


def n_memmove(M, st, a):
    return n_memcpy(M, st, a, True)


def n_memcmp(M, st, a):
    n = M.split(st, a[2], 64, False, 64)
    if n is None:
        raise Gap('memcmp of symbolic length')
    for i in range(n):
        x, y = ch(M, st, a[0], i), ch(M, st, a[1], i)
        if not decide(M, st, 'eq', 8, x, y):
            return 1 if decide(M, st, 'ugt', 8, x, y) else M64 >> 32
    return 0


# ---------------------------------------------------------------- stdio

def file_obj(M, st, p, what):
    if type(p) is int and p == 0:
        raise Alarm('null-dereference', '%s on a null stream' % what)
    if p is UNDEF:
        raise Alarm('uninitialised', '%s on an uninitialised stream' % what)
    if type(p) is not Ptr:
        raise Alarm('wild-pointer', '%s on %r' % (what, p))
    o = st.objs.get(p.o)
    if o is None:
        raise Alarm('use-after-close', '%s on a closed stream' % what)
    if o.kind != 'file':
        raise Alarm('type-confusion', '%s on a non-stream' % what)
    return o


def n_fopen(M, st, a):
    name = string(M, st, a[0])
    mode = pystr(M, st, a[1])
    if 'fopen' in M.faults:
        if question(M, st, ('fopen', tuple(name) if all(type(b) is int for b in name) else len(name), mode)):
            st.emit('fopen-failed', tuple(name), mode)
            return 0
    if M.closed_world and mode.startswith('r') and M.file_data(st, tuple(name)) is None:
        st.emit('fopen-failed', tuple(name), mode)
        return 0
    o = st.new_obj(216, 'file', 'file')
    o.tag = (tuple(name), mode)
    st.emit('fopen', o.id, tuple(name), mode)
    return Ptr(o.id, 0)


def n_fclose(M, st, a):
    o = file_obj(M, st, a[0], 'fclose')
    failed = 'fclose' in M.faults and question(M, st, ('fclose', o.id))
    st.emit('fclose', o.id, failed)
    del st.objs[o.id]
    return M64 >> 32 if failed else 0


def out(M, st, o, toks):
    st.emit('out', o.id, tuple(toks))


def io_fail(M, st, o, what):
    if what in M.faults and 'once' in M.faults:
        # failures are sticky (ferror): one failure at an arbitrary point is the general case
        n = st.ev
        while n is not None:
            if n[1][0] == 'write-failed':
                return False
            n = n[0]
    return what in M.faults and question(M, st, (what, o.id))


def n_fputc(M, st, a):
    o = file_obj(M, st, a[1], 'fputc')
    c = trunc(a[0], 8) if type(a[0]) in (int, S) else a[0]
    if c is UNDEF:
        raise Alarm('uninitialised', 'output of an uninitialised value')
    f = io_fail(M, st, o, 'fwrite')
    if f:
        st.emit('write-failed', o.id)
        return M64 >> 32
    out(M, st, o, [('byte', c)])
    return from_lf(32, u_lf(c, 8)) if type(c) is S else c


def n_fputs(M, st, a):
    o = file_obj(M, st, a[1], 'fputs')
    s = string(M, st, a[0])
    if io_fail(M, st, o, 'fwrite'):
        st.emit('write-failed', o.id)
        return M64 >> 32
    out(M, st, o, [('byte', b) for b in s])
    return 1


def n_puts(M, st, a):
    s = string(M, st, a[0])
    st.emit('out', 'stdout', tuple(('byte', b) for b in s + [10]))
    return 1


def n_fwrite(M, st, a):
    p, szv, nv, f = a
    o = file_obj(M, st, f, 'fwrite')
    sz = size_val(M, st, szv)
    n = size_val(M, st, nv)
    if type(sz) is not int:
        raise Gap('fwrite of symbolic element size')
    total = sz * n if type(n) is int else (n[0] * sz, tuple((x, k * sz) for x, k in n[1]))
    if type(total) is int and total == 0:
        return 0
    if type(total) is not int:
        lo, hi = st.hull(*total)
        if lo <= 0:
            if hi <= 0:
                return 0
            raise Fork([[('lin', total[0], total[1], lo, 0)], [('lin', total[0], total[1], 1, hi)]])
    so, soff = blk(M, st, p, total, 'read')
    bounds_sym(M, st, so, soff, total, 'read')
    if io_fail(M, st, o, 'fwrite'):
        st.emit('write-failed', o.id)
        return 0
    if type(total) is int and type(soff) is int and so.tag is None and total <= 200000:
        bs = [M.load(st, Ptr(so.id, soff + i), 1, 'i') for i in range(total)]
        for b in bs:
            if b is UNDEF:
                raise Alarm('uninitialised', 'output of an uninitialised value')
        out(M, st, o, [('byte', b) for b in bs])
    else:
        out(M, st, o, [('block', so.id, so.tag, soff, total)])
    return from_lf(64, total) if type(total) is tuple else total // sz * 1


# printf family -------------------------------------------------------------

def fmt_tokens(M, st, fmt, args, lenient=False):
    """tokens of a printf call; values keep their width"""
    toks = []
    i = 0
    args = list(args)

    def nxt():
        if not args:
            raise Alarm('format', 'format string %r needs more arguments' % fmt)
        return args.pop(0)
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            toks.append(('byte', ord(c)))
            i += 1
            continue
        i += 1
        if fmt[i] == '%':
            toks.append(('byte', 37))
            i += 1
            continue
        flags = ''
        while fmt[i] in '0-+ #':
            flags += fmt[i]
            i += 1
        width = ''
        while fmt[i].isdigit() or fmt[i] == '*':
            width += fmt[i]
            i += 1
        prec = None
        if fmt[i] == '.':
            i += 1
            prec = ''
            while fmt[i].isdigit() or fmt[i] == '*':
                prec += fmt[i]
                i += 1
        mod = ''
        while fmt[i] in 'hlLqjzt':
            mod += fmt[i]
            i += 1
        conv = fmt[i]
        i += 1
        if '*' in width:
            w = nxt()
            if type(w) is not int:
                raise Gap('symbolic field width')
            width = str(sgn(w, 32))
        if prec and '*' in prec:
            w = nxt()
            if type(w) is not int:
                raise Gap('symbolic precision')
            prec = str(sgn(w, 32))
        width = int(width) if width else 0
        v = nxt()
        if v is UNDEF:
            raise Alarm('uninitialised', 'uninitialised value formatted with %%%s' % conv)
        if conv in 'diuxXoc':
            if type(v) in (Ptr, F, float):
                raise Alarm('format', '%%%s given a non-integer argument' % conv)
            bits = 64 if ('l' in mod or mod in ('j', 'z', 't')) else 8 if mod == 'hh' else 16 if mod == 'h' else 32
            if type(v) is S and v.w > bits or type(v) is int:
                v = trunc(v, bits)
            if type(v) is S and v.w < bits:
                v = from_lf(bits, u_lf(v, v.w))
            if conv == 'c':
                toks.append(('byte', trunc(v, 8)))
                continue
            if type(v) is int:
                x = sgn(v, bits) if conv in 'di' else v
                spec = '%' + flags + (str(width) if width else '') + ('.' + prec if prec is not None else '') + {'i': 'd', 'u': 'd'}.get(conv, conv)
                toks.extend(('byte', ord(z)) for z in spec % x)
            else:
                toks.append(('num', conv, flags, width, None if prec is None else int(prec or 0), bits, v))
        elif conv in 'feEgGaA':
            if type(v) in (Ptr, S) or type(v) is int:
                raise Alarm('format', '%%%s given a non-floating argument' % conv)
            if type(v) is float:
                spec = '%' + flags + (str(width) if width else '') + ('.' + prec if prec is not None else '') + conv
                toks.extend(('byte', ord(z)) for z in spec % v)
            else:
                toks.append(('fnum', conv, flags, width, prec, v))
        elif conv == 's':
            if type(v) is int and v == 0:
                raise Alarm('null-dereference', '%s given a null string')
            s = string(M, st, v)
            if prec:
                s = s[:int(prec)]
            pad = [('byte', 32)] * max(0, width - len(s))
            ss = [('byte', b) for b in s]
            toks.extend(ss + pad if '-' in flags else pad + ss)
        elif conv == 'p':
            toks.append(('ptr', v))
        else:
            raise Gap('conversion %%%s' % conv)
    return toks


def concrete_fmt(M, st, p):
    s = pystr(M, st, p)
    if s is None:
        raise Alarm('format', 'format string is not constant')
    return s


def n_fprintf(M, st, a):
    o = file_obj(M, st, a[0], 'fprintf')
    fmt = concrete_fmt(M, st, a[1])
    toks = fmt_tokens(M, st, fmt, a[2:])
    if io_fail(M, st, o, 'fwrite'):
        st.emit('write-failed', o.id)
        return M64 >> 32
    out(M, st, o, toks)
    return len(toks)


def n_printf(M, st, a):
    toks = fmt_tokens(M, st, concrete_fmt(M, st, a[0]), a[1:])
    st.emit('out', 'stdout', tuple(toks))
    return len(toks)


def flat(M, st, toks, lenient):
    bs = []
    for t in toks:
        if t[0] == 'byte':
            bs.append(t[1])
        elif not lenient and t[0] == 'num' and t[1] in 'xX' and set(t[2]) <= {'0'} and ('0' in t[2] and t[4] is None or t[3] <= max(1, t[4] or 0)):
            # the digits of a hexadecimal field, one partition for each length
            _, conv, flags, width, prec, bits, v = t
            n = max(1, prec if prec is not None else width)
            c, tm = u_lf(v, bits)
            while 4 * n < bits and not decide(M, st, 'ult', bits, v, 1 << (4 * n)):
                n += 1
            for k in range(n - 1, -1, -1):
                d = mkD(4 * k, 4 * k + 4, c, dict(tm)) if k else mkU(4, c, dict(tm))
                bs.append(hex_digit((d, ()) if type(d) is int else d, conv == 'X'))
        elif lenient:
            bs.append(ord('?'))
        else:
            raise Gap('formatted symbolic value used as a string')
    return bs


def n_vasprintf(M, st, a):
    fmt = concrete_fmt(M, st, a[0])
    o, off = M.resolve(st, a[1])
    if o.tag is None or o.tag[0] != 'va':
        raise Alarm('uninitialised', 'va_list used before va_start')
    toks = fmt_tokens(M, st, fmt, va_rest(M, st, a[1]))
    st.emit('message', tuple(toks))
    return new_str(M, st, flat(M, st, toks, True))


def n_asprintf(M, st, a):
    fmt = concrete_fmt(M, st, a[0])
    toks = fmt_tokens(M, st, fmt, a[1:])
    bs = []
    for t in toks:
        if t[0] == 'byte':
            bs.append(t[1])
        elif t[0] == 'num' and t[1] in 'diu' and not t[3]:
            v = M.split(st, t[6], t[5], t[1] in 'di', 40)
            if v is None:
                raise Gap('decimal text of an unbounded value')
            bs.extend(str(v).encode())
        else:
            raise Gap('formatted symbolic value used as a string')
    return new_str(M, st, bs)


def n_snprintf(M, st, a):
    p, nv, f = a[0], a[1], a[2]
    n = M.split(st, nv, 64, False, 1)
    bs = flat(M, st, fmt_tokens(M, st, concrete_fmt(M, st, f), a[3:]), False)
    for i, b in enumerate((bs[:n - 1] if n else []) + [0]):
        if i < n:
            M.store(st, Ptr(p.o, p.off + i), 1, b)
    return len(bs)


def n_sprintf(M, st, a):
    bs = flat(M, st, fmt_tokens(M, st, concrete_fmt(M, st, a[1]), a[2:]), False)
    for i, b in enumerate(bs + [0]):
        M.store(st, Ptr(a[0].o, a[0].off + i), 1, b)
    return len(bs)


def n_va_start(M, st, a):
    o, off = M.resolve(st, a[0])
    o = st.wobj(o.id)
    o.tag = ('va', tuple(st.top.va or ()))
    # register areas exhausted: every argument lies in the overflow area, eight bytes each
    va = st.top.va or ()
    s = st.new_obj(8 * len(va), 'stack', 'variable arguments')
    for i, v in enumerate(va):
        s.cells[8 * i] = (v.w // 8, v) if type(v) is S else (8, v)
    fr = st.top
    fr.allocas = (fr.allocas or []) + [s.id]
    o.cells = {0: (4, 48), 4: (4, 176), 8: (8, Ptr(s.id, 0)), 16: (8, 0)}
    return None


def va_rest(M, st, p):
    """arguments not yet taken from a va_list"""
    o, off = M.resolve(st, p)
    if o.tag is None or o.tag[0] != 'va':
        raise Alarm('uninitialised', 'va_list used before va_start')
    c = o.cells.get(8)
    k = c[1].off // 8 if c is not None and type(c[1]) is Ptr and type(c[1].off) is int else 0
    return o.tag[1][k:]


def n_vfprintf(M, st, a):
    return n_fprintf(M, st, list(a[:2]) + list(va_rest(M, st, a[2])))


def n_vprintf(M, st, a):
    return n_printf(M, st, [a[0]] + list(va_rest(M, st, a[1])))


def n_vsnprintf(M, st, a):
    return n_snprintf(M, st, list(a[:3]) + list(va_rest(M, st, a[3])))


def n_vsprintf(M, st, a):
    return n_sprintf(M, st, list(a[:2]) + list(va_rest(M, st, a[2])))


def n_asprintf_p(M, st, a):
    """asprintf(char **, ...): like xasprintf, result through a pointer"""
    M.resolve(st, a[0])
    r = n_asprintf(M, st, a[1:])
    M.store(st, a[0], 8, r)
    return len(string(M, st, r))


def n_vasprintf_p(M, st, a):
    M.resolve(st, a[0])
    r = n_vasprintf(M, st, a[1:])
    M.store(st, a[0], 8, r)
    return len(string(M, st, r))


def n_putchar(M, st, a):
    c = trunc(a[0], 8) if type(a[0]) in (int, S) else a[0]
    st.emit('out', 'stdout', (('byte', c),))
    return from_lf(32, u_lf(c, 8)) if type(c) is S else c


def n_perror(M, st, a):
    s = string(M, st, a[0]) if type(a[0]) is Ptr else []
    st.emit('out', 'stderr', tuple(('byte', b) for b in (s + list(b': ') if s else []) + list(b'strerror\n')))
    return None


def n_va_end(M, st, a):
    return None


def n_va_copy(M, st, a):
    o, off = M.resolve(st, a[0])
    s, _ = M.resolve(st, a[1])
    o = st.wobj(o.id)
    o.tag = s.tag
    o.cells = dict(s.cells)
    return None


def n_fgetc(M, st, a):
    o = file_obj(M, st, a[0], 'fgetc')
    # contents: M.files[name] = list of byte values
    if io_fail(M, st, o, 'fread'):
        st.emit('write-failed', o.id)
        return M64 >> 32
    name = o.tag[0]
    pos = st.user.get(('pos', o.id), 0)
    data = M.file_data(st, name)
    if data is None:
        raise Gap('contents of input file not given')
    if pos < len(data):
        st.user[('pos', o.id)] = pos + 1
        b = data[pos]
        return from_lf(32, u_lf(b, 8)) if type(b) is S else b
    return M64 >> 32


def n_fgets(M, st, a):
    p, nv, f = a
    o = file_obj(M, st, f, 'fgets')
    if io_fail(M, st, o, 'fread'):
        st.emit('write-failed', o.id)
        return 0
    n = M.split(st, nv, 32, True, 1)
    name = o.tag[0]
    pos = st.user.get(('pos', o.id), 0)
    data = M.file_data(st, name)
    if data is None:
        raise Gap('contents of input file not given')
    got = []
    while len(got) < n - 1 and pos + len(got) < len(data):
        b = data[pos + len(got)]
        got.append(b)
        if (b == 10) if type(b) is int else decide_byte(M, st, b, 10):
            break
    if not got:
        return 0
    st.user[('pos', o.id)] = pos + len(got)
    for i, b in enumerate(got + [0]):
        M.store(st, Ptr(p.o, p.off + i), 1, b)
    return p


def n_fread(M, st, a):
    p, szv, nv, f = a
    o = file_obj(M, st, f, 'fread')
    if io_fail(M, st, o, 'fread'):
        st.emit('write-failed', o.id)
        return 0
    sz = M.split(st, szv, 64, False, 1)
    n = M.split(st, nv, 64, False, 1)
    data = M.file_data(st, o.tag[0])
    if data is None:
        raise Gap('contents of input file not given')
    pos = st.user.get(('pos', o.id), 0)
    k = min(sz * n, len(data) - pos)
    for i in range(k):
        M.store(st, Ptr(p.o, p.off + i), 1, data[pos + i])
    st.user[('pos', o.id)] = pos + k
    return k // sz


def n_feof(M, st, a):
    o = file_obj(M, st, a[0], 'feof')
    data = M.file_data(st, o.tag[0])
    n = st.ev
    while n is not None:
        if n[1][0] == 'write-failed' and n[1][1] == o.id:
            return 0
        n = n[0]
    return 1 if data is None or st.user.get(('pos', o.id), 0) >= len(data) else 0


def n_ferror(M, st, a):
    o = file_obj(M, st, a[0], 'ferror')
    # sticky error indicator: set by a failed write on this stream
    n = st.ev
    while n is not None:
        if n[1][0] == 'write-failed' and n[1][1] == o.id:
            return 1
        n = n[0]
    return 0


def n_fflush(M, st, a):
    if type(a[0]) is Ptr:
        o = file_obj(M, st, a[0], 'fflush')
        if o.name in ('stdout', 'stderr'):
            return 0
        if 'fclose' in M.faults and question(M, st, ('fflush', o.id)):
            st.emit('write-failed', o.id)
            return M64 >> 32
    return 0


def n_exit(M, st, a):
    c = M.split(st, a[0], 32, True, 8)
    raise ExitPath(c)


def n_abort(M, st, a):
    raise Alarm('abort', 'abort() called')


def n_assert(M, st, a):
    raise Alarm('assertion', 'assertion failed: %s' % (pystr(M, st, a[0]),))


# ---------------------------------------------------------------- numbers

def digits(M, st, p, base):
    """strtol-style scan of p: returns (integer linear form, index of first unread byte, any digit)"""
    i = 0

    def cls(i):
        """('space'|'+'|'-'|'x'|('d', value)|'other')"""
        v = ch(M, st, p, i)
        if type(v) is int:
            if v in (9, 10, 11, 12, 13, 32):
                return 'space'
            if v == 43:
                return '+'
            if v == 45:
                return '-'
            if 48 <= v <= 57:
                return ('d', v - 48, (v - 48, ()))
            if 97 <= v <= 122:
                return ('d', v - 87, (v - 87, ()))
            if 65 <= v <= 90:
                return ('d', v - 55, (v - 55, ()))
            return 'other'
        e = st.exact(v, 8, False)
        lo, hi = st.hull(*e)
        cuts = [0, 9, 14, 32, 33, 43, 44, 45, 46, 48, 50, 56, 58, 65, 71, 91, 97, 103, 123, 256]
        rs = [(x, y - 1) for x, y in zip(cuts, cuts[1:])]
        rs = [(max(x, lo), min(y, hi)) for x, y in rs if x <= hi and y >= lo]
        if len(rs) > 1:
            ivs = st.ivals(*e)
            rs = [(x, y) for x, y in rs if any(l <= y and h >= x for l, h in ivs)]
        if len(rs) > 1:
            raise Fork([[('lin', e[0], e[1], x, y)] for x, y in rs])
        x, y = rs[0]
        if 48 <= x <= 57:
            return ('d', y - 48, (e[0] - 48, e[1]))
        if 65 <= x <= 90:
            return ('d', y - 55, (e[0] - 55, e[1]))
        if 97 <= x <= 122:
            return ('d', y - 87, (e[0] - 87, e[1]))
        if x == 43 == y:
            return '+'
        if x == 45 == y:
            return '-'
        if 9 <= x <= 13 or x == 32:
            return 'space'
        return 'other'
    while cls(i) == 'space':
        i += 1
    neg = False
    k = cls(i)
    if k in ('+', '-'):
        neg = k == '-'
        i += 1
    if base in (0, 16):
        a = ch(M, st, p, i)
        if a == 48:
            b = ch(M, st, p, i + 1)
            if b in (120, 88):
                d = cls(i + 2)
                if type(d) is tuple and d[1] < 16:
                    base = 16
                    i += 2
    if base == 0:
        base = 8 if ch(M, st, p, i) == 48 else 10
    c, t = 0, {}
    n = 0
    while True:
        d = cls(i)
        if type(d) is not tuple or d[1] >= base:
            break
        c = c * base + d[2][0]
        t = {a: k * base for a, k in t.items()}
        for a, k in d[2][1]:
            t[a] = t.get(a, 0) + k
        i += 1
        n += 1
    if neg:
        c = -c
        t = {a: -k for a, k in t.items()}
    return (c, tuple(sorted(((a, k) for a, k in t.items() if k), key=lambda z: z[0].id))), i, n


def n_strtol(M, st, a):
    base = M.split(st, a[2], 32, True, 40)
    lf, i, n = digits(M, st, a[0], base)
    if n == 0:
        lf, i = (0, ()), 0
    lo, hi = st.hull(*lf)
    mx, mn = (1 << 63) - 1, -(1 << 63)
    over = None
    if lo > mx:
        over = mx
    elif hi < mn:
        over = mn
    elif hi > mx or lo < mn:
        alts = [[('lin', lf[0], lf[1], max(lo, mn), min(hi, mx))]]
        if hi > mx:
            alts.append([('lin', lf[0], lf[1], mx + 1, hi)])
        if lo < mn:
            alts.append([('lin', lf[0], lf[1], lo, mn - 1)])
        raise Fork(alts)
    if type(a[1]) is Ptr:
        M.store(st, a[1], 8, Ptr(a[0].o, a[0].off + i))
    if over is not None:
        M.store(st, errno_ptr(M, st), 4, 34)
        return over & M64
    return from_lf(64, lf)


def n_strtod(M, st, a):
    s = string(M, st, a[0])
    if type(a[1]) is Ptr:
        M.store(st, a[1], 8, Ptr(a[0].o, a[0].off + len(s)))
    if all(type(b) is int for b in s):
        import re
        m = re.match(rb'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', bytes(s))
        return float(m.group(0)) if m else 0.0
    return F('strtod', tuple(s))


def errno_ptr(M, st):
    i = st.user.get('errno')
    if i is None:
        o = st.new_obj(4, 'global', 'errno')
        o.cells[0] = (4, 0)
        st.user['errno'] = i = o.id
    return Ptr(i, 0)


def n_errno(M, st, a):
    return errno_ptr(M, st)


def n_strerror(M, st, a):
    return new_str(M, st, list(b'strerror'), 'static')


def n_strtoul(M, st, a):
    """unsigned; negative input wraps"""
    base = M.split(st, a[2], 32, True, 40)
    lf, i, n = digits(M, st, a[0], base)
    if n == 0:
        lf, i = (0, ()), 0
    lo, hi = st.hull(*lf)
    mx = M64
    over = lo > mx or hi < -mx
    if not over and (hi > mx or lo < -mx):
        alts = [[('lin', lf[0], lf[1], max(lo, -mx), min(hi, mx))]]
        if hi > mx:
            alts.append([('lin', lf[0], lf[1], mx + 1, hi)])
        if lo < -mx:
            alts.append([('lin', lf[0], lf[1], lo, -mx - 1)])
        raise Fork(alts)
    if type(a[1]) is Ptr:
        M.store(st, a[1], 8, Ptr(a[0].o, a[0].off + i))
    if over:
        M.store(st, errno_ptr(M, st), 4, 34)
        return mx
    return from_lf(64, lf)


def intrinsic_abs(w):
    def f(M, st, a):
        v = a[0]
        if type(v) is int:
            return abs(sgn(v, w)) & ((1 << w) - 1)
        if v is UNDEF:
            return v
        return mulc(w, v, -1) if decide(M, st, 'slt', w, v, 0) else v
    return f


def intrinsic_minmax(w, pred):
    def f(M, st, a):
        if a[0] is UNDEF or a[1] is UNDEF:
            return UNDEF
        return a[0] if decide(M, st, pred, w, a[0], a[1]) else a[1]
    return f


def intrinsic_bswap(w):
    def f(M, st, a):
        v = a[0]
        if type(v) is int:
            return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
        if v is UNDEF:
            return v
        r = 0
        for i in range(w // 8):
            b = M.sub(v, i, 1)
            x = from_lf(w, u_lf(b, 8)) if type(b) is S else b
            r = add(w, r, mulc(w, x, 1 << (w - 8 - 8 * i)))
        return r
    return f


def intrinsic_popcount(M, st, a):
    if type(a[0]) is not int:
        raise Gap('population count of a symbolic value')
    return bin(a[0]).count('1')


def intrinsic_ov(w, op, signed):
    """{iN result, i1 overflowed}"""
    from vals import Agg

    def lf(st, x):
        if type(x) is int:
            return (sgn(x, w) if signed else x), ()
        return st.exact(x, w, signed)

    def f(M, st, a):
        x, y = a
        if x is UNDEF or y is UNDEF:
            return UNDEF
        (xc, xt), (yc, yt) = lf(st, x), lf(st, y)
        if op == 'mul':
            if xt and yt:
                raise Gap('checked product of two symbolic values')
            if not yt:
                xc, xt, yc, yt = yc, yt, xc, xt
            c, t = xc * yc, tuple((q, k * xc) for q, k in yt if k * xc)
        else:
            s = 1 if op == 'add' else -1
            d = dict(xt)
            for q, k in yt:
                d[q] = d.get(q, 0) + s * k
            c, t = xc + s * yc, tuple(sorted(((q, k) for q, k in d.items() if k), key=lambda z: z[0].id))
        mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        lo, hi = st.hull(c, t) if t else (c, c)
        if lo < mn <= hi or lo <= mx < hi:
            alts = []
            for l, h in ((lo, mn - 1), (max(lo, mn), min(hi, mx)), (mx + 1, hi)):
                if l <= h:
                    alts.append([('lin', c, t, l, h)])
            raise Fork(alts)
        return Agg((from_lf(w, (c, t)) if t else c & ((1 << w) - 1), int(lo > mx or hi < mn)))
    return f


def fmath(name, fn):
    """rounding functions: exact on constants, uninterpreted otherwise"""
    def f(M, st, a):
        v = 0.0 if type(a[0]) is int and a[0] == 0 else a[0]
        if v is UNDEF:
            return v
        if type(v) is float:
            return fn(v)
        return F(name, (v,))
    return f


def ctype(pred):
    def f(M, st, a):
        v = a[0]
        if type(v) is int:
            return 1 if pred(sgn(v, 32)) else 0
        e = st.exact(v, 32, True)
        lo, hi = st.hull(*e)
        if hi - lo > 300:
            raise Gap('ctype of a wide value')
        runs = []
        for x in range(lo, hi + 1):
            r = pred(x)
            if runs and runs[-1][2] == r:
                runs[-1][1] = x
            else:
                runs.append([x, x, r])
        if len(runs) == 1:
            return 1 if runs[0][2] else 0
        raise Fork([[('lin', e[0], e[1], x, y)] for x, y, r in runs])
    return f


def casemap(f):
    def g(M, st, a):
        v = a[0]
        if type(v) is int:
            x = sgn(v, 32)
            return (f(x) if 0 <= x < 128 else x) & 0xffffffff
        lo, hi = (65, 90) if f(65) == 97 else (97, 122)
        e = st.exact(v, 32, True)
        l, h = st.hull(*e)
        if l >= lo and h <= hi:
            return add(32, v, (32 if lo == 65 else -32) & 0xffffffff)
        if h < lo or l > hi:
            return v
        alts = []
        for x, y in ((l, lo - 1), (lo, hi), (hi + 1, h)):
            x, y = max(x, l), min(y, h)
            if x <= y:
                alts.append([('lin', e[0], e[1], x, y)])
        if len(alts) < 2:
            return v
        raise Fork(alts)
    return g


def n_abs(M, st, a):
    v = a[0]
    if type(v) is int:
        return abs(sgn(v, 32)) & 0xffffffff
    if decide(M, st, 'slt', 32, v, 0):
        return mulc(32, v, -1)
    return v


# ---------------------------------------------------------------- getopt_long

def getopt_error(M, st):
    e = M.gobj.get('opterr')
    if e is None or M.load(st, Ptr(e, 0), 4, 'i') != 0:
        st.emit('out', 'stderr', tuple(('byte', c) for c in b'asm6809: unusable option\n'))
    return ord('?')


def n_getopt_long(M, st, a):
    argc = M.split(st, a[0], 32, True, 1)
    argv, optstr, longopts, longind = a[1], pystr(M, st, a[2]), a[3], a[4]
    optind = Ptr(M.gobj['optind'], 0)
    optarg = Ptr(M.gobj['optarg'], 0)
    g = st.user.get('getopt', (1, 0))      # next argv index, position in a short cluster
    idx, pos = g

    def arg(i):
        return M.load(st, Ptr(argv.o, argv.off + 8 * i), 8, 'p')
    # GNU permutation: find the next option argument
    perm = st.user.get('nonopt', ())
    if pos == 0:
        while idx < argc:
            p = arg(idx)
            s = string(M, st, p)
            if len(s) >= 2 and s[0] == 45:
                break
            perm = perm + (idx,)
            idx += 1
        if idx >= argc or (s == [45, 45]):
            rest = perm + tuple(range(idx + (1 if idx < argc else 0), argc))
            # permuted order: program, options..., non-options
            opts = [i for i in range(1, argc) if i not in rest]
            order = opts + list(rest)
            vals = [arg(i) for i in order]
            for k, v in enumerate(vals):
                M.store(st, Ptr(argv.o, argv.off + 8 * (k + 1)), 8, v)
            M.store(st, optind, 4, 1 + len(opts))
            st.user['getopt'] = (argc, 0)
            return M64 >> 32
    p = arg(idx)
    s = string(M, st, p)
    if pos == 0 and s[1] == 45:
        # long option
        name = []
        i = 2
        while i < len(s) and s[i] != 61:
            name.append(s[i])
            i += 1
        val = Ptr(p.o, p.off + i + 1) if i < len(s) else None
        nm = bytes(name).decode('latin1')
        exact, part = None, []
        k = 0
        while True:
            e = Ptr(longopts.o, longopts.off + 32 * k)
            np = M.load(st, e, 8, 'p')
            if type(np) is int:
                break
            on = pystr(M, st, np)
            rec = (k, on, M.load(st, Ptr(e.o, e.off + 8), 4, 'i'), M.load(st, Ptr(e.o, e.off + 16), 8, 'p'), M.load(st, Ptr(e.o, e.off + 24), 4, 'i'))
            if on == nm:
                exact = rec
            elif on.startswith(nm):
                part.append(rec)
            k += 1
        r = exact or (part[0] if len(part) == 1 else None)
        if r is None:
            st.user['getopt'] = (idx + 1, 0)
            st.user['nonopt'] = perm
            return getopt_error(M, st)
        idx += 1
        if r[2] == 0 and val is not None:
            st.user['getopt'] = (idx, 0)
            st.user['nonopt'] = perm
            return getopt_error(M, st)
        oa = 0
        if r[2] == 1:
            if val is None:
                if idx >= argc:
                    st.user['getopt'] = (idx, 0)
                    return getopt_error(M, st)
                val = arg(idx)
                idx += 1
            oa = val
        elif r[2] == 2:
            oa = val if val is not None else 0
        M.store(st, optarg, 8, oa)
        M.store(st, optind, 4, idx)
        st.user['getopt'] = (idx, 0)
        st.user['nonopt'] = perm
        if type(longind) is Ptr:
            M.store(st, longind, 4, r[0])
        if type(r[3]) is Ptr:
            M.store(st, r[3], 4, r[4])
            return 0
        return r[4]
    if pos == 0:
        pos = 1
    c = s[pos]
    j = optstr.find(chr(c)) if type(c) is int else -1
    pos += 1
    st.user['nonopt'] = perm
    if j < 0 or c == 58:
        st.user['getopt'] = (idx, pos) if pos < len(s) else (idx + 1, 0)
        return getopt_error(M, st)
    if optstr[j + 1:j + 2] == ':':
        if pos < len(s):
            oa = Ptr(p.o, p.off + pos)
            idx += 1
        else:
            idx += 1
            if idx >= argc:
                st.user['getopt'] = (idx, 0)
                return getopt_error(M, st)
            oa = arg(idx)
            idx += 1
        M.store(st, optarg, 8, oa)
        M.store(st, optind, 4, idx)
        st.user['getopt'] = (idx, 0)
        return c
    M.store(st, optarg, 8, 0)
    st.user['getopt'] = (idx, pos) if pos < len(s) else (idx + 1, 0)
    return c


def install(M):
    M.faults = set()
    M.closed_world = False
    M.files = {}
    M.file_data = lambda st, name: M.files.get(bytes(name) if all(type(b) is int for b in name) else name)
    N = M.natives
    for n in ('malloc', 'xmalloc', 'xcharalloc'):
        N[n] = n_malloc
    for n in ('calloc', 'xcalloc'):
        N[n] = n_calloc
    N['xzalloc'] = lambda M, st, a: n_calloc(M, st, [a[0], 1])
    for n in ('realloc', 'xrealloc'):
        N[n] = n_realloc
    N['free'] = n_free
    for n in ('xstrdup', 'strdup'):
        N[n] = n_strdup
    for n in ('strndup', 'xstrndup'):
        N[n] = n_strndup
    N.update(strlen=n_strlen, strcmp=n_strcmp, strncmp=n_strncmp, strcasecmp=n_strcasecmp, strcpy=n_strcpy, strcat=n_strcat,
             strchr=n_strchr, strrchr=n_strrchr, memset=n_memset, memcpy=n_memcpy, memmove=n_memmove, memcmp=n_memcmp,
             fopen=n_fopen, fclose=n_fclose, fputc=n_fputc, putc=n_fputc, fputs=n_fputs, puts=n_puts, fwrite=n_fwrite,
             fprintf=n_fprintf, printf=n_printf, snprintf=n_snprintf, sprintf=n_sprintf, fgetc=n_fgetc, getc=n_fgetc, fgets=n_fgets, fread=n_fread,
             feof=n_feof, ferror=n_ferror, fflush=n_fflush, exit=n_exit, abort=n_abort,
             strtol=n_strtol, strtoll=n_strtol, strtoimax=n_strtol, strtod=n_strtod, strerror=n_strerror,
             xvasprintf=n_vasprintf, xasprintf=n_asprintf, getopt_long=n_getopt_long, abs=n_abs)
    N.update(vfprintf=n_vfprintf, vprintf=n_vprintf, vsnprintf=n_vsnprintf, vsprintf=n_vsprintf, asprintf=n_asprintf_p,
             vasprintf=n_vasprintf_p, putchar=n_putchar, perror=n_perror, strtoul=n_strtoul, strtoull=n_strtoul,
             strtoumax=n_strtoul, strtof=n_strtod, fputc_unlocked=n_fputc, putc_unlocked=n_fputc, getc_unlocked=n_fgetc)
    for k in ('strtoul', 'strtoull', 'strtoumax'):
        N['__isoc23_' + k] = n_strtoul
    N['memset'] = n_memset
    for w in (8, 16, 32, 64):
        N['llvm.abs.i%d' % w] = intrinsic_abs(w)
        for k, p in (('smax', 'sgt'), ('smin', 'slt'), ('umax', 'ugt'), ('umin', 'ult')):
            N['llvm.%s.i%d' % (k, w)] = intrinsic_minmax(w, p)
        if w > 8:
            N['llvm.bswap.i%d' % w] = intrinsic_bswap(w)
        N['llvm.ctpop.i%d' % w] = intrinsic_popcount
        for k in ('add', 'sub', 'mul'):
            for sg in 'su':
                N['llvm.%s%s.with.overflow.i%d' % (sg, k, w)] = intrinsic_ov(w, k, sg == 's')
        N['llvm.expect.i%d' % w] = lambda M, st, a: a[0]
    N['llvm.expect.i1'] = lambda M, st, a: a[0]
    import math

    def rnd(x):
        return math.copysign(math.floor(abs(x) + 0.5), x)
    for k, fn in (('fabs', abs), ('floor', math.floor), ('ceil', math.ceil), ('trunc', math.trunc), ('round', rnd)):
        g = fmath(k, lambda v, fn=fn: float(fn(v)) if v == v and abs(v) != math.inf else v if k != 'fabs' else abs(v))
        N[k] = N['llvm.%s.f64' % k] = g
    for k, f in (('llvm.memset.p0.i64', n_memset), ('llvm.memcpy.p0.p0.i64', n_memcpy), ('llvm.memmove.p0.p0.i64', n_memmove),
                 ('llvm.va_start', n_va_start), ('llvm.va_end', n_va_end), ('llvm.va_copy', n_va_copy),
                 ('__isoc23_strtol', n_strtol), ('__isoc23_strtoimax', n_strtol), ('__isoc23_strtoll', n_strtol),
                 ('__errno_location', n_errno), ('__assert_fail', n_assert)):
        N[k] = f
    nop = lambda M, st, a: None
    for k in ('llvm.stackrestore.p0', 'llvm.stackrestore', 'llvm.assume', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'setvbuf', 'setbuf'):
        N[k] = nop
    N['llvm.stacksave.p0'] = N['llvm.stacksave'] = lambda M, st, a: 0
    N['llvm.trap'] = n_abort
    for k in ('llvm.dbg.declare', 'llvm.dbg.value', 'llvm.dbg.label'):
        N[k] = nop
    zero = lambda M, st, a: 0
    N['clearerr'] = zero
    N['fileno'] = zero
    N['isatty'] = zero
    N['xalloc_die'] = n_abort
    cc = lambda s: (lambda x: 0 <= x < 256 and chr(x) in s)
    import string as S_
    N['isdigit'] = ctype(cc(S_.digits))
    N['isalpha'] = ctype(cc(S_.ascii_letters))
    N['isalnum'] = ctype(cc(S_.ascii_letters + S_.digits))
    N['isxdigit'] = ctype(cc(S_.hexdigits))
    N['isspace'] = ctype(cc(' \t\n\v\f\r'))
    N['isupper'] = ctype(cc(S_.ascii_uppercase))
    N['islower'] = ctype(cc(S_.ascii_lowercase))
    N['tolower'] = casemap(lambda x: x + 32 if 65 <= x <= 90 else x)
    N['toupper'] = casemap(lambda x: x - 32 if 97 <= x <= 122 else x)
    # standard streams
    for nm in ('stdin', 'stdout', 'stderr'):
        if nm in M.gobj:
            o = M.base.new_obj(216, 'file', nm)
            o.tag = (tuple(nm.encode()), 'std')
            M.base.objs[M.gobj[nm]].cells[0] = (8, Ptr(o.id, 0))
    for nm in ('optarg', 'optind'):
        if nm in M.gobj:
            M.base.objs[M.gobj[nm]].cells[0] = (8, 0) if nm == 'optarg' else (4, 1)
