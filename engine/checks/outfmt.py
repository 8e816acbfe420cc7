"""Shared by C11-C14: programs with abstract bytes at abstract addresses, and output as a stream of
characters and hexadecimal byte fields."""
from common import *
from c10 import run_passes, lab
import prove


class Block:
    def __init__(self, put, data, org=None):
        self.put, self.data, self.org = put, data, org


def blocks_prog(blocks, exec_=None, style='org'):
    """lines that assemble each block at its address"""
    out = []
    for i, b in enumerate(blocks):
        if b.org is not None:
            out.append((None, 'org', [('int', b.org)]))
        out.append((None, style if b.org is None else 'put', [('int', b.put)]))
        d = b.data
        j = 0
        while j < len(d):
            n = 1
            while j + n < len(d) and d[j + n] is d[j]:
                n += 1
            if n >= 64:
                out.append((None, 'rzb', [('int', n), ('int', d[j])]))
                j += n
                continue
            n = 1
            while j + n < len(d) and n < 16 and (d[j + n] is not d[j + n - 1]):
                n += 1
            out.append((None, 'fcb', [('int', x) for x in d[j:j + n]]))
            j += n
    if exec_ is not None:
        out.append((None, 'end', [('int', exec_)]))
    return out


def data(n, tag='b'):
    return [inp('%s%d' % (tag, i), 64, 0, 255) for i in range(n)]


def run_format(ctx, flag, blocks, exec_=None, pre=(), extra=(), style='org'):
    return run_passes(ctx, [blocks_prog(blocks, exec_, style) + list(extra)], None, [flag, '-o', 'out'] + list(pre))


def stream(st, toks):
    """tokens -> list of characters (int), ('b', value) raw abstract bytes, ('x', form) two hexadecimal digits of an abstract byte"""
    out = []
    for t in toks:
        if t[0] == 'byte':
            out.append(t[1] & 255 if type(t[1]) is int else ('b', t[1]))
            continue
        if t[0] != 'num':
            raise Gap('output conversion %r' % (t,))
        _, conv, flags, width, prec, bits, v = t
        if type(v) is int:
            conc = v
            s = fmt(conv, flags, width, prec, bits, conc)
            out.extend(s)
            continue
        n = prec if prec is not None and prec >= 0 else (width if '0' in flags else 1)
        if conv != 'X' or n % 2 or (width or 0) > n or set(flags) - {'0'}:
            raise Gap('output conversion %r of an abstract value' % (t[1:6],))
        lo, hi = bounds(st, *u_lf(v, bits))
        if hi >= 16 ** n:
            # more digits would be printed: is that feasible?
            out.append(('wide', v, n, bits))
        for k in range(n // 2 - 1, -1, -1):
            out.append(('x', byte(zx(v, bits), 8 * k)))
    return out


def zx(v, bits):
    c, t = u_lf(v, bits)
    return (c, t)


def bounds(st, c, t):
    c, t = prove.simp_lf(st, c, t)
    return st.hull(c, t)


def fmt(conv, flags, width, prec, bits, v):
    v &= (1 << bits) - 1
    f = '%' + flags + (str(width) if width else '') + ('.%d' % prec if prec is not None and prec >= 0 else '')
    if conv in 'di':
        if v >> (bits - 1):
            v -= 1 << bits
        return list((f + 'd').__mod__(v).encode())
    return list((f + {'u': 'd', 'x': 'x', 'X': 'X', 'o': 'o'}[conv]).__mod__(v).encode())


def X(*bs):
    """hexadecimal digits of bytes (abstract or not)"""
    out = []
    for b in bs:
        if type(b) is int:
            out += list(('%02X' % (b & 255)).encode())
        else:
            out.append(('x', b))
    return out


def C(s):
    return list(s.encode())


def B(bs):
    return [b & 255 if type(b) is int else ('b', b) for b in bs]


def item_diff(st, got, want):
    """True equal / False / None undecided, differ predicate, values"""
    if type(got) is int and type(want) is int:
        return got == want, None, ()
    if type(got) is tuple and got[0] == 'wide':
        return False, None, ()
    if type(got) is int or type(want) is int or got[0] != want[0]:
        # a concrete character against an abstract byte: equal only for one value
        g = got if type(got) is int else got[1]
        w = want if type(want) is int else want[1]
        if type(got) is tuple and type(want) is tuple or (type(got) is tuple and got[0] == 'x') or (type(want) is tuple and want[0] == 'x'):
            return False, None, ()
        r = prove.equal(st, g, w, 8)
        return r, prove.values_differ(8, g, w), (g, w)
    r = prove.equal(st, got[1], want[1], 8)
    return r, prove.values_differ(8, got[1], want[1]), (got[1], want[1])


def compare_stream(ctx, rep, p, st, want, what):
    from check import _confirm
    ev = [s for s in streams(p.st) if s['name'] == 'out']
    if want is None:
        if exit_code(p) == 0 or 'error: ' not in text(out_events(p.st, 'stderr')):
            _confirm(ctx, rep, st, p, None, (), '%s: overlapping blocks are not diagnosed' % what, ctx.seed, 400)
        else:
            rep.ok()
            rep.cases['overlap'] = rep.cases.get('overlap', 0) + 1
        return
    if exit_code(p) != 0 or len(ev) != 1:
        _confirm(ctx, rep, st, p, None, (), '%s: the run failed or wrote no output (%s)' % (what, messages_of(p)), ctx.seed, 400)
        return
    got = stream(st, ev[0]['out'])
    got = [norm(st, x) for x in got]
    want = [norm(st, x) for x in want]
    got, want = flat(got), flat(want)
    wides = [g for g in got if type(g) is tuple and g[0] == 'wide']
    if wides:
        g = wides[0]
        lf = u_lf(g[1], g[3])
        s2 = st.clone()
        if s2.assume([('lin', lf[0], lf[1], 16 ** g[2], (1 << g[3]) - 1)]) and prove.feasible(s2):
            _confirm(ctx, rep, s2, p, None, (), '%s: field wider than its %d digits' % (what, g[2]), ctx.seed, 400)
            return
        got = [g for g in got if not (type(g) is tuple and g[0] == 'wide')]
    if len(got) != len(want):
        i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
        _confirm(ctx, rep, st, p, None, (), '%s: output of %d items, expected %d; first difference at item %d: %s, expected %s' % (what, len(got), len(want), i, show_items(got[i:i + 12]), show_items(want[i:i + 12])), ctx.seed, 400)
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g == w:
            continue
        r, d, v = item_diff(st, g, w)
        if r is True:
            continue
        _confirm(ctx, rep, st, p, d, v, '%s: output item %d is %s, expected %s' % (what, i, show_items([g]), show_items([w])), ctx.seed, 400)
        return
    rep.ok()
    rep.cases[what] = rep.cases.get(what, 0) + 1


def flat(items):
    out = []
    for x in items:
        if type(x) is list:
            out.extend(x)
        else:
            out.append(x)
    return out


def norm(st, x):
    """abstract item with a value that is constant under the facts of the partition -> characters"""
    if type(x) is int or x[0] == 'wide':
        return x
    v = x[1]
    if type(v) is S:
        lo, hi = bounds(st, *u_lf(v, 8))
    elif type(v) is int:
        lo = hi = v & 255
    else:
        lo, hi = bounds(st, v[0], v[1])
    if lo == hi:
        return lo & 255 if x[0] == 'b' else list(('%02X' % (lo & 255)).encode())
    return x


def show_items(items):
    return ' '.join(repr(chr(x)) if type(x) is int and 32 < x < 127 else '%02x' % x if type(x) is int else '%s(%r)' % (x[0], x[1]) for x in items)


def messages_of(p):
    return text(out_events(p.st, 'stderr'))[:200]


def check_format(ctx, rep, ps, wants, what):
    """wants: [(guard, expected items)]"""
    import prove
    from check import _confirm, real_facts
    for p in ps:
        if p.status == 'alarm':
            _confirm(ctx, rep, p.st, p, None, (), 'assembler fault: %s: %s at %s' % (p.value[0], p.value[1], p.loc), ctx.seed, 400)
            continue
        hit = False
        for guard, want in wants:
            s2 = p.st.clone()
            if guard and not s2.assume(guard):
                continue
            if not prove.feasible(s2):
                continue
            hit = True
            compare_stream(ctx, rep, p, s2, want, what)
        if not hit and prove.witness(p.st, lambda v: True, (), tries=60, seed=ctx.seed, facts=real_facts(p.st)) is not None:
            rep.gap('%s: partition matches no case' % what)


BIG = 1 << 20


def dist(a, b, k):
    """form a - b - k"""
    c, t = lform(-k, *([(a, 1)] if type(a) is S else []), *([(b, -1)] if type(b) is S else []))
    return c + (a if type(a) is int else 0) - (b if type(b) is int else 0), t


def arrangements(blocks):
    """[(guard, merged blocks in order | None when some overlap)] for blocks at abstract addresses"""
    import itertools
    out = []
    n = len(blocks)
    for perm in itertools.permutations(range(n)):
        for rel in itertools.product('<=', repeat=max(0, n - 1)):
            g, merged = [], []
            for i, k in enumerate(perm):
                b = blocks[k]
                if i and rel[i - 1] == '=':
                    merged[-1] = Block(merged[-1].put, merged[-1].data + b.data)
                else:
                    merged.append(Block(b.put, list(b.data)))
                if i:
                    a = blocks[perm[i - 1]]
                    d = dist(b.put, a.put, len(a.data))
                    g.append(lin(d, 1, BIG) if rel[i - 1] == '<' else lin(d, 0, 0))
            out.append((g, merged))
    for i in range(n):
        for j in range(i + 1, n):
            a, b = blocks[i], blocks[j]
            d = dist(b.put, a.put, 0)
            out.append(([lin(d, 1 - len(b.data), len(a.data) - 1)], None))
    return out


FILLER = 0xa5


def large(n, tag):
    """n bytes: abstract at the ends and in the middle, a constant between"""
    d = [FILLER] * n
    for i in (0, n // 2, n - 1):
        d[i] = inp('%s%d' % (tag, i), 64, 0, 255)
    return d


def big_image(flag, n, whole, exec_='none'):
    """one block of many bytes at an abstract address"""
    def go(ctx, rep):
        base = v64('base', 0, 0x10000 - n) if n < 0x10000 else 0
        e = {'none': None, 'any': v64('exec', 0, 0xffff)}[exec_]
        b = Block(base, large(n, 'b'))
        old = ctx.M.max_steps
        ctx.M.max_steps = 60000000
        try:
            ps = run_format(ctx, flag, [b], e)
        finally:
            ctx.M.max_steps = old
        check_format(ctx, rep, ps, [([], whole([b], e))], 'block of %d bytes' % n)
    return go


def relocated(flag, sizes, whole, exec_='none'):
    """blocks assembled for one address and put at another, both abstract; the last follows on from the one before"""
    def go(ctx, rep):
        e = {'none': None, 'any': v64('exec', 0, 0xffff)}[exec_]
        total = sum(sizes)
        base = v64('base', 0, 0x10000 - total)
        blocks, off = [], 0
        for i, n in enumerate(sizes):
            blocks.append(Block(mk(64, base.c + off, dict(base.t)), data(n, 'b%d_' % i), v64('org%d' % i, 0, 0x10000 - n)))
            off += n
        ps = run_format(ctx, flag, blocks, e)
        check_format(ctx, rep, ps, [([], whole([Block(base, sum((b.data for b in blocks), []))] if blocks else [], e))], 'relocated blocks of %s bytes' % (list(sizes),))
    return go


def large_and_relocated(flag, whole, tier, sizes):
    out = [('block of %d bytes' % n, big_image(flag, n, whole)) for n in sizes]
    for s in ((3,), (2, 3), (1, 40)) + (((33, 2, 5), (200, 100)) if tier == 'thorough' else ()):
        for e in ('none', 'any'):
            out.append(('relocated blocks of %s bytes, execution address %s' % (list(s), e), relocated(flag, s, whole, e)))
    return out


BIGSIZES = {'quick': (1000, 0x8001, 0x10000), 'thorough': (1000, 4095, 4096, 4097, 0x7fff, 0x8000, 0x8001, 0xff00, 0xffff, 0x10000)}
