"""Abstract interpretation of the whole program writing raw, DragonDOS and CoCo output, with every data
byte, the load addresses and the execution address abstract.  The byte stream written must equal the
image (zero-filled gaps), the 9-byte DragonDOS header and image, or the CoCo segments and trailer
computed from those abstract values; the default execution address is the first block's load address.
For the padded formats the distance between blocks is enumerated, the base address abstract."""
from outfmt import *
from c11 import z, hilo, image, subjects, many
RULE = 'subject = (format, block sizes and gaps, execution address); obligation = trace partition of the whole output'
FLAG = {'raw': '-B', 'dragondos': '-D', 'coco': '-C'}


def w16(n):
    return [(n >> 8) & 255, n & 255]


def raw(put, d, e):
    return B([z(x) for x in d])


def dragondos(put, d, e):
    ex = put if e is None else e
    return B([0x55, 0x02] + list(hilo(put)) + w16(len(d)) + list(hilo(ex)) + [0xaa]) + B([z(x) for x in d])


def coco(blocks, e):
    out = []
    for b in blocks:
        out += B([0] + w16(len(b.data)) + list(hilo(b.put))) + B([z(x) for x in b.data])
    ex = blocks[0].put if e is None and blocks else e
    return out + B([0xff, 0, 0] + list(hilo(ex)))


def padded(fmt, sizes, gaps, exec_, order):
    """blocks at base, base+size+gap, ... assembled in the given order"""
    def go(ctx, rep):
        total = sum(sizes) + sum(gaps)
        base = v64('base', 0, 0x10000 - total) if total < 0x10000 else S(64, 0, ())
        e = {'none': None, 'any': v64('exec', 0, 0xffff)}[exec_]
        blocks, off, img = [], 0, []
        for i, n in enumerate(sizes):
            if i:
                img += [0] * gaps[i - 1]
                off += gaps[i - 1]
            d = data(n, 'b%d_' % i)
            blocks.append(Block(mk(64, base.c + off, dict(base.t)), d))
            img += d
            off += n
        ps = run_format(ctx, FLAG[fmt], [blocks[i] for i in order], e)
        want = (raw if fmt == 'raw' else dragondos)(base if blocks else 0, img, e)
        check_format(ctx, rep, ps, [([], want)], '%s, %d blocks' % (fmt, len(sizes)))
    return go


def segments(sizes, exec_):
    def go(ctx, rep):
        blocks = image(sizes)
        e = {'none': None, 'any': v64('exec', 0, 0xffff), 'zero': 0}[exec_]
        ps = run_format(ctx, '-C', blocks, e)
        check_format(ctx, rep, ps, [(g, coco(m, e) if m is not None else None) for g, m in arrangements(blocks)], 'coco, %d blocks' % len(sizes))
    return go


def overlap(fmt, sizes):
    def go(ctx, rep):
        a = v64('at0', 0x1000, 0x2000)
        for d in range(1 - sizes[1], sizes[0]):
            b = mk(64, a.c + d, dict(a.t))
            ps = run_format(ctx, FLAG[fmt], [Block(a, data(sizes[0], 'a')), Block(b, data(sizes[1], 'b'))])
            check_format(ctx, rep, ps, [([], None)], '%s, overlapping blocks' % fmt)
    return go


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog')
    out = []
    for s, e in subjects(tier):
        if not s and e == 'none':
            continue        # nothing assembled and no execution address: the trailer's content is not specified
        out.append(('coco: blocks of %s bytes, execution address %s' % (list(s), e), segments(s, e)))
    out += [('coco: ' + n, f) for n, f in many(tier, '-C', coco)]
    out += [('coco: ' + n, f) for n, f in large_and_relocated('-C', coco, tier, [n for n in BIGSIZES[tier] if n <= 0xffff])]
    for fmt in ('raw', 'dragondos'):
        for e in ('none', 'any'):
            if fmt == 'raw' and e == 'any':
                continue
            one = [0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 300] + (list(range(4, 127, 7)) if tier == 'thorough' else [])
            for n in one:
                if n == 0 and fmt == 'dragondos':
                    out.append(('dragondos: nothing assembled, execution address %s' % e, empty(e)))
                    continue
                out.append(('%s: %d bytes, execution address %s' % (fmt, n, e), padded(fmt, (n,) if n else (), (), e, (0,) if n else ())))
            gaps = [0, 1, 2, 3, 7, 31, 127, 128, 129, 200, 255, 256] + ([500, 1000] if tier == 'thorough' else [])
            for g in gaps:
                for o in ((0, 1), (1, 0)):
                    out.append(('%s: two blocks with a gap of %d in order %s, execution address %s' % (fmt, g, o, e), padded(fmt, (3, 2), (g,), e, o)))
            import itertools
            for o in itertools.permutations(range(3)):
                for gg in ((0, 0), (1, 0), (0, 2), (3, 130)):
                    out.append(('%s: three blocks with gaps %s in order %s, execution address %s' % (fmt, gg, o, e), padded(fmt, (2, 1, 130), gg, e, o)))
        w = (lambda m, e: raw(m[0].put if m else 0, m[0].data if m else [], e)) if fmt == 'raw' else (lambda m, e: dragondos(m[0].put if m else 0, m[0].data if m else [], e))
        top = 0x10000 if fmt == 'raw' else 0xffff
        out += [('%s: %s' % (fmt, n), f) for n, f in large_and_relocated('-B' if fmt == 'raw' else '-D', w, tier, [n for n in BIGSIZES[tier] if n <= top])]
        for n in (0x1000, 0x7fff, 0x8000, 0x8001, 0xff00, 0xffff, 0x10000):
            if n <= top:
                for o in ((0, 1), (1, 0)):
                    out.append(('%s: image of %d bytes in order %s' % (fmt, n, o), padded(fmt, (2, 3), (n - 5,), 'none', o)))
        out.append(('%s: overlap' % fmt, overlap(fmt, (2, 3))))
    return out


def empty(e):
    def go(ctx, rep):
        ex = {'none': None, 'any': v64('exec', 0, 0xffff)}[e]
        ps = run_format(ctx, '-D', [], ex)
        check_format(ctx, rep, ps, [([], dragondos(0, [], ex))], 'dragondos, no data')
    return go
