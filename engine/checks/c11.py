"""Abstract interpretation of the whole program writing SREC output for blocks of every size around the
record boundaries (and several blocks), with every data byte, every load address and the execution
address abstract.  The token stream written must equal, item by item, the records of the format
computed from those abstract values: counts, addresses, data in order, checksums, and the S9 record."""
from outfmt import *
import itertools
RULE = 'subject = (block sizes, execution address); obligation = trace partition of the whole output'


def srec(put, data):
    out = []
    for i in range(0, len(data), 32):
        d = data[i:i + 32]
        n = len(d)
        a = (put.c + i, put.t) if type(put) is S else put + i
        hi, lo = byte(a, 8), byte(a)
        if type(put) is int:
            hi, lo = (a >> 8) & 255, a & 255
        out += C('S1') + X(n + 3, hi, lo) + X(*[z(x) for x in d])
        out += X(inv(n + 3, hi, lo, *d)) + C('\n')
    return out


def z(x):
    return x & 255 if type(x) is int else byte(x)


def total(k0, *vs):
    """sum of bytes as an integer form"""
    c, t = k0, {}
    for v in vs:
        if type(v) is int:
            c += v & 255
            continue
        vc, vt = u_lf(v, 8) if v.w == 8 else (v.c, v.t)
        c += vc
        for a, k in vt:
            t[a] = t.get(a, 0) + k
    return c, t


def inv(k0, *vs):
    """ones' complement of the sum, low byte"""
    c, t = total(k0, *vs)
    if not t:
        return (~c) & 255
    return mk(8, -1 - c, {a: -k for a, k in t.items()})


def neg(k0, *vs):
    c, t = total(k0, *vs)
    if not t:
        return (-c) & 255
    return mk(8, -c, {a: -k for a, k in t.items()})


def hilo(v):
    if type(v) is int:
        return (v >> 8) & 255, v & 255
    return byte(v, 8), byte(v)


def s9(e):
    if e is None:
        return C('S9030000FC\n')
    hi, lo = hilo(e)
    return C('S9') + X(3, hi, lo) + X(inv(3, hi, lo)) + C('\n')


def image(sizes):
    """blocks of abstract bytes at abstract addresses"""
    return [Block(v64('at%d' % i, 0, 0x10000 - n), data(n, 'b%d_' % i)) for i, n in enumerate(sizes)]


def subject(sizes, exec_, flag='-S', fmt=None):
    def go(ctx, rep):
        blocks = image(sizes)
        e = {'none': None, 'any': v64('exec', 0, 0xffff), 'zero': 0}[exec_]
        ps = run_format(ctx, flag, blocks, e)
        f = fmt or whole
        check_format(ctx, rep, ps, [(g, f(m, e) if m is not None else None) for g, m in arrangements(blocks)], '%d blocks' % len(sizes))
    return go


def placed(sizes, gaps, order, exec_, flag='-S', fmt=None):
    """blocks at base, base+size+gap, ... (abstract base) assembled in the given order"""
    def go(ctx, rep):
        total = sum(sizes) + sum(gaps)
        base = v64('base', 0, 0x10000 - total)
        e = {'none': None, 'any': v64('exec', 0, 0xffff)}[exec_]
        blocks, merged, off = [], [], 0
        for i, n in enumerate(sizes):
            off += gaps[i - 1] if i else 0
            b = Block(mk(64, base.c + off, dict(base.t)), data(n, 'b%d_' % i))
            blocks.append(b)
            if i and not gaps[i - 1]:
                merged[-1] = Block(merged[-1].put, merged[-1].data + b.data)
            else:
                merged.append(Block(b.put, list(b.data)))
            off += n
        ps = run_format(ctx, flag, [blocks[i] for i in order], e)
        check_format(ctx, rep, ps, [([], (fmt or whole)(merged, e))], '%d blocks' % len(sizes))
    return go


def three(tier):
    for sizes in ((1, 2, 3), (40, 1, 40)) + (((32, 32, 32), (30, 30, 30, 1)) if tier == 'thorough' else ()):
        n = len(sizes)
        for gaps in itertools.product((0, 1, 40), repeat=n - 1):
            if n > 3 and 40 in gaps:
                continue
            orders = list(itertools.permutations(range(n)))
            if tier != 'thorough' and sizes != (1, 2, 3):
                orders = orders[:3]
            for o in orders:
                yield sizes, gaps, o


def many(tier, flag='-S', fmt=None):
    return [('blocks of %s bytes with gaps %s assembled in order %s' % (list(s), list(g), list(o)), placed(s, g, o, 'none', flag, fmt)) for s, g, o in three(tier)]


def whole(blocks, e):
    out = []
    for b in blocks:
        out += srec(b.put, b.data)
    return out + s9(e)


def subjects(tier):
    sizes = [()] + [(n,) for n in range(1, 70)] + [(96,), (97,), (128,), (129,), (255,), (256,), (257,), (1, 1), (33, 2), (2, 33), (32, 32)]
    if tier == 'thorough':
        sizes += [(n,) for n in range(70, 270, 3)] + [(512,), (1000,), (64, 1)]
    for s in sizes:
        for e in ('none', 'any', 'zero'):
            if e == 'zero' and len(s) != 1:
                continue
            yield s, e


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog')
    return [('blocks of %s bytes, execution address %s' % (list(s), e), subject(s, e)) for s, e in subjects(tier)] + many(tier) + large_and_relocated('-S', whole, tier, BIGSIZES[tier])
