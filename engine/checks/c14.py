"""Abstract interpretation of the whole program over arrangements of blocks: every order, gaps of no byte
and more, overlaps by every amount, blocks placed by ORG, PUT, RMB and sections, sizes around the
allocation steps of the output buffers; base address and data bytes abstract.  Expected: the map from load
address to byte that the statements define, in the encoding of each output format."""
from layout import *
import itertools
RULE = 'subject = (format, layout steps); obligation = trace partition of the whole output'
FORMATS = ('-S', '-H', '-C', '-B', '-D')


def blk(n, i):
    return ('data', data(n, 'b%d_' % i))


def ways(style, offs, sizes, order):
    """steps placing blocks at the given offsets in the given order"""
    st = [('org', 0)]
    if style == 'put':
        st += [('org', 7)]
    for j, i in enumerate(order):
        if style == 'sections':
            st += [('sec', 'S%d' % i), ('org', offs[i])]
        elif style == 'two sections':
            st += [('sec', 'S%d' % (j & 1)), ('put', offs[i])]
        elif style == 'put':
            st += [('put', offs[i])]
        else:
            st += [('org', offs[i])]
        st += [blk(sizes[i], i)]
    return st


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog')
    out = []
    deep = tier == 'thorough'

    def add(f, steps, what, name):
        out.append(('%s: %s' % (f, name), subject(f, steps, what)))
    # every order of blocks with gaps
    for n in (2, 3, 4) + ((5,) if deep else ()):
        sizes = (3, 2, 1, 4, 1)[:n]
        for gaps in itertools.product((0, 2) if n > 2 else (0, 1, 2, 40), repeat=n - 1):
            offs, o = [], 0
            for i in range(n):
                offs.append(o)
                o += sizes[i] + (gaps[i] if i < n - 1 else 0)
            orders = list(itertools.permutations(range(n)))
            for oi, order in enumerate(orders):
                for si, style in enumerate(('org', 'put', 'sections', 'two sections')):
                    for fi, f in enumerate(FORMATS):
                        # all combinations for two blocks; covering combinations for more
                        if n > 2 and not deep and (oi + si + fi + sum(gaps)) % 5 and (n > 3 or si != fi):
                            continue
                        if n == 4 and not deep and (oi + si) % 3:
                            continue
                        if n == 5 and (oi + si + fi) % 15:
                            continue
                        add(f, ways(style, offs, sizes, order), '%d blocks' % n, '%s blocks with gaps %s placed by %s in order %s' % (sizes, gaps, style, order))
    # overlaps by every amount
    for sizes in ((3, 2), (2, 3), (1, 1), (4, 1), (1, 4)):
        for d in range(1 - sizes[1], sizes[0]):
            for style in ('org', 'put', 'sections'):
                for f in FORMATS:
                    if style != 'org' and f not in ('-S', '-B') and not deep:
                        continue
                    add(f, ways(style, (10, 10 + d), sizes, (0, 1)), 'overlap', 'blocks %s overlapping at distance %d placed by %s' % (sizes, d, style))
    for order in itertools.permutations(range(3)):
        for d in ((0, 0), (0, 2), (2, 2), (0, 1)):
            for f in FORMATS if deep else ('-S', '-C', '-D'):
                add(f, ways('org', (10, 10 + d[0], 10 + d[1]), (2, 2, 2), order), 'overlap', 'three blocks with distances %s in order %s' % (d, order))
    # buffer growth
    big = (1, 126, 127, 128, 129, 130, 255, 256, 257)
    for a in big:
        for b in big:
            for k, g in enumerate((0, 1, 130)):
                for fi, f in enumerate(FORMATS):
                    if not deep and (a + b + k + fi) % 5:
                        continue
                    for order in ((0, 1), (1, 0)):
                        add(f, ways('org', (0, a + g), (a, b), order), 'large blocks', 'blocks of %d and %d bytes with gap %d in order %s' % (a, b, g, order))
    # far from the usual sizes
    Q = lambda i: ('quads', [v64('q%d_%d' % (i, j), 0, 0x7fffffff) for j in range(4)])
    for n in (1000, 4090, 0x4000, 0x7ff0, 0xb000) + ((0x2000, 0xe000, 0xfe00) if deep else ()):
        add('-B', [('org', 0), ('run', n, 0x5a), Q(0), blk(3, 1), Q(2)], 'far', 'growing from %d bytes' % n)
    for a, b, g in ((1000, 700, 0), (700, 1000, 3), (5000, 5000, 0), (3, 0x9000, 0), (0x9000, 3, 0), (0x9000, 3, 1), (3, 3, 0x9000), (3, 3, 0x7ffd), (3, 3, 0xe000), (600, 3, 0x4000), (20000, 20000, 500)):
        for order in ((0, 1), (1, 0)):
            st = []
            for i in order:
                st += [('org', (0, a + g)[i]), ('run', (a, b)[i], 0x33 + i) if (a, b)[i] > 3 else blk((a, b)[i], i)]
            for f in ('-B', '-S') if a + b + g < 0x3000 or deep else ('-B',):
                add(f, st, 'far', 'blocks of %d and %d bytes with gap %d in order %s' % (a, b, g, order))
    for n in (40, 150):
        st = []
        for j in range(n):
            i = j * 7 % n
            st += [('org', i * 3), ('run', 3 if i % 4 else 2, i & 255)]
        add('-B', st, 'far', '%d blocks' % n)
        add('-C', st, 'far', '%d blocks' % n)
    # pieces joined from reservations, empty data and continuing sections
    P = [
        ('reserved gap', [('org', 0), blk(2, 0), ('rmb', 3), blk(2, 1)]),
        ('reservation of nothing', [('org', 0), blk(2, 0), ('rmb', 0), blk(2, 1)]),
        ('reservation at the start and end', [('org', 0), ('rmb', 3), blk(2, 0), ('rmb', 4)]),
        ('reserved gap filled later', [('org', 0), blk(2, 0), ('rmb', 3), blk(2, 1), ('org', 2), blk(3, 2)]),
        ('reserved gap filled too much', [('org', 0), blk(2, 0), ('rmb', 3), blk(2, 1), ('org', 2), blk(4, 2)]),
        ('no data in between', [('org', 0), blk(2, 0), ('org', 9), ('nodata',), ('org', 2), blk(2, 1)]),
        ('no data in an unused section', [('org', 0), blk(2, 0), ('sec', 'A'), ('nodata',), ('sec', CODE), blk(2, 1)]),
        ('location moved, load address continuing', [('org', 0), blk(2, 0), ('org', 50), ('put', 2), blk(2, 1)]),
        ('sections alternating', [('org', 0), blk(2, 0), ('sec', 'A'), blk(3, 1), ('sec', CODE), blk(1, 2), ('sec', 'A'), blk(1, 3)]),
        ('sections chained', [('org', 0), blk(2, 0), ('sec', 'A'), blk(3, 1), ('sec', 'B'), blk(1, 2)]),
        ('same data twice', [('org', 0), blk(2, 0), ('org', 20), blk(2, 0)]),
        ('data of one byte each', [('org', 0)] + [blk(1, i) for i in range(6)]),
        ('one byte each, descending', sum([[('org', 6 - i), blk(1, i)] for i in range(6)], [])),
        ('one byte each, interleaved', sum([[('org', (i * 5) % 7), blk(1, i)] for i in range(7)], [])),
    ]
    for n, steps in P:
        for f in FORMATS:
            add(f, steps, 'pieces', n)
    return out
