"""Shared by C14 and C15: programs of layout steps relative to an abstract base address, and where the
documentation says their bytes go."""
from outfmt import *
from c11 import srec, s9, hilo

CODE = 'CODE'


class Sec:
    def __init__(self, pc, put):
        self.pc, self.put = pc, put


def lines(steps, base):
    """steps -> source lines; addresses are offsets from the abstract base"""
    def addr(k):
        return ('int', mk(64, base.c + k, dict(base.t)) if type(base) is S else base + k)
    out = []
    for s in steps:
        if s[0] in ('org', 'put'):
            out.append((None, s[0], [addr(s[1])]))
        elif s[0] == 'data':
            for j in range(0, len(s[1]), 16):
                out.append((None, 'fcb', [('int', x) for x in s[1][j:j + 16]]))
        elif s[0] == 'run':
            out.append((None, 'rzb', [('int', s[1]), ('int', s[2])]))
        elif s[0] == 'quads':
            out += [(None, 'fqb', [('int', x)]) for x in s[1]]
        elif s[0] == 'here':
            out.append((None, 'fdb', [('pc',)]))
        elif s[0] == 'rmb':
            out.append((None, 'rmb', [('int', s[1])]))
        elif s[0] == 'sec':
            out.append((None, 'section', [('str', s[1])]))
        elif s[0] == 'name':
            out.append((None, s[1], None))
        elif s[0] == 'nodata':
            out.append((None, 'fcc', [('str', '')]))
        else:
            raise Exception(s)
    return out


def expand(s):
    """runs and longer items as data"""
    if s[0] == 'run':
        return ('data', [s[2]] * s[1])
    if s[0] == 'quads':
        return ('data', sum([be(x, 4) for x in s[1]], []))
    return s


def one_pass(steps, last):
    """[(load offset, 'data' bytes | ('here', location offset))], ends of sections"""
    secs = {CODE: Sec(('abs', 0), ('abs', 0))}
    cur = CODE
    out = []
    for s in map(expand, steps):
        c = secs[cur]
        if s[0] == 'org':
            c.pc = c.put = s[1]
        elif s[0] == 'put':
            c.put = s[1]
        elif s[0] in ('rmb', 'data', 'here'):
            n = {'rmb': lambda: s[1], 'data': lambda: len(s[1]), 'here': lambda: 2}[s[0]]()
            if s[0] != 'rmb':
                out.append((c.put, s[1] if s[0] == 'data' else ('here', c.pc), n))
            c.pc, c.put = c.pc + n, c.put + n
        elif s[0] in ('sec', 'name'):
            if s[1] not in secs:
                pc, put = last.get(cur, (0, 0))
                secs[s[1]] = Sec(pc, put)
            cur = s[1]
    return out, {n: (c.pc, c.put) for n, c in secs.items()}


def place(steps):
    """fixpoint of the passes"""
    last = {}
    for _ in range(10):
        out, ends = one_pass(steps, last)
        if ends == last:
            return out
        last = ends
    return None


def image(steps, base):
    """merged blocks in address order | None when bytes overlap"""
    at = {}
    for put, d, n in place(steps):
        if type(d) is tuple and d[0] == 'here':
            v = mk(64, base.c + d[1], dict(base.t))
            d = [byte(v, 8), byte(v)]
        for i, b in enumerate(d):
            if put + i in at:
                return None
            at[put + i] = b
    blocks = []
    for a in sorted(at):
        if blocks and blocks[-1][0] + len(blocks[-1][1]) == a:
            blocks[-1][1].append(at[a])
        else:
            blocks.append((a, [at[a]]))
    return [Block(mk(64, base.c + a, dict(base.t)), d) for a, d in blocks]


def extent(steps):
    """lowest and highest address touched in any pass"""
    lo = hi = 0
    last = {}
    for _ in range(10):
        secs = {}
        out, ends = one_pass(steps, last)
        for put, d, n in out:
            lo, hi = min(lo, put), max(hi, put + n)
        for pc, put in ends.values():
            lo, hi = min(lo, put, pc), max(hi, put, pc)
        for s in steps:
            if s[0] in ('org', 'put'):
                lo, hi = min(lo, s[1]), max(hi, s[1])
        # location and load address may separate: leave room for everything emitted or reserved
        if ends == last:
            break
        last = ends
    room = sum({'data': lambda: len(s[1]), 'here': lambda: 2, 'rmb': lambda: s[1]}.get(s[0], lambda: 0)() for s in map(expand, steps))
    return lo, hi + room


def base_of(steps):
    lo, hi = extent(steps)
    if any(s[0] == 'run' for s in steps):
        hi -= sum(len(s[1]) for s in map(expand, steps) if s[0] == 'data')      # these never separate location and load address
    assert hi - lo <= 0x10000
    return v64('base', -lo, 0x10000 - hi)


def show_steps(steps):
    def one(s):
        if s[0] == 'data':
            return '%d bytes' % len(s[1])
        return s[0] if len(s) == 1 else ' '.join(map(str, s)) if s[0] != 'quads' else '%d longer items' % len(s[1])
    return ', '.join(one(s) for s in steps)


def out_form(f, m):
    from c12 import whole as hexw
    from c13 import coco, raw, dragondos
    from c11 import whole
    if f == '-S':
        return whole(m, None)
    if f == '-H':
        return hexw(m, None)
    if f == '-C':
        return coco(m, None)
    lo = m[0].put
    img = []
    for b in m:
        gap = b.put.c - lo.c - len(img)
        img += [0] * gap + b.data
    return (raw if f == '-B' else dragondos)(lo, img, None)


def subject(f, steps, what):
    def go(ctx, rep):
        base = base_of(steps)
        m = image(steps, base)
        keep = ctx.M.max_steps
        if any(s[0] == 'run' for s in steps):
            ctx.M.max_steps = 60e6
        try:
            ps = run_passes(ctx, [lines(steps, base)], None, [f, '-o', 'out'])
        finally:
            ctx.M.max_steps = keep
        check_format(ctx, rep, ps, [([], out_form(f, m) if m is not None else None)], what)
    return go
