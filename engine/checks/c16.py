"""Abstract interpretation of assemble_prog for every data directive with abstract operands: integers
(all values), floating point numbers, strings of abstract characters (every character code) of length 0 to
3 and around the buffer sizes, empty operands, and all sequences of up to three operand kinds; fill
counts enumerated and out of range; included files of abstract bytes.  The bytes emitted must equal, on
every trace partition, those the documentation gives for that directive."""
import itertools
import embed
from common import *
RULE = 'subject = (directive, operand kinds); obligation = (trace partition, character class)'


def chars(n, tag='s', lo=1, hi=255):
    return [inp('%s%d' % (tag, i), 8, lo, hi) for i in range(n)]


# display code of an ASCII character: [(lo, hi, added)]
VDG = [(1, 0x1f, 0), (0x20, 0x3f, 64), (0x40, 0x5f, 0), (0x60, 0x60, 0x20 - 0x60), (0x61, 0x7f, -96), (0x80, 0xff, 0)]


def vdg(c, lo, hi, add, invert):
    """display code of character c known to lie in lo..hi"""
    if type(c) is int:
        v = c + add
        return v ^ 0x40 if invert and c < 0x80 else v
    f = lform(add, (c, 1))
    if invert and hi < 0x80:
        # bit 6 of the code is the same over the whole class
        f = (f[0] + (-0x40 if (lo + add) & 0x40 else 0x40), f[1])
    return byte(f)


def top(v):
    """byte with its top bit set"""
    if type(v) is int:
        return v & 255 | 0x80
    u = mkU(7, v.c, dict(v.t))
    return from_lf(8, (u[0] + 0x80, u[1]))


def low(v):
    return v & 255 if type(v) is int else byte(v)


def operand(ctx, k, j, op):
    """(node, [(guards, bytes)]) of an operand of this kind"""
    n = 'v%d_' % j
    if k in ('int', 'symbol', 'imm'):
        v = v64(n)
        node = {'int': lambda: ('int', v), 'symbol': lambda: ('id', ['sym%d' % j]), 'imm': lambda: imm(ctx, ('int', v))}[k]()
        return node, [([], be(v, SIZE[op]))], ('int', v)
    if k == 'float':
        f = fin('f%d_' % j)
        return ('float', f), [([], be(f2i(f), SIZE[op]))], None
    if k == 'empty':
        return ('empty',), [([], [0] * SIZE[op])], None
    if k == 'strsym':
        s = chars(2, n)
        return ('id', ['sym%d' % j]), string(s), ('str', s)
    s = chars(int(k[3:]), n)
    return ('str', s), string(s), None


def string(s):
    return [([], list(s))]


SIZE = {'fcb': 1, 'fcc': 1, 'fcn': 1, 'fcs': 1, 'fcv': 1, 'fci': 1, 'fdb': 2, 'fqb': 4}


def transform(op, k, alts):
    """the directive's effect on one operand's bytes"""
    out = []
    for g, bs in alts:
        strk = k.startswith('str')
        if op == 'fcs':
            # last byte of each value gets its top bit set
            if bs:
                bs = [low(b) for b in bs[:-1]] + [top(bs[-1])]
            out.append((g, bs))
        elif op in ('fcv', 'fci') and strk:
            for cl in itertools.product(VDG, repeat=len(bs)):
                gg, bb = list(g), []
                for c, (lo, hi, add) in zip(bs, cl):
                    gg.append(lin(c, lo, hi))
                    bb.append(vdg(c, lo, hi, add, op == 'fci'))
                out.append((gg, bb))
        else:
            out.append((g, [low(b) for b in bs]))
    return out


def directive(op, kinds, isa=0, upper=False):
    def go(ctx, rep):
        pre, nodes, alts = [], [], [([], [])]
        for j, k in enumerate(kinds):
            node, a, sym = operand(ctx, k, j, op)
            if sym:
                if sym[0] != 'int' or k == 'symbol':
                    pre.append((('id', ['sym%d' % j]), 'equ', [sym]))
            nodes.append(node)
            alts = [(g + g2, b + b2) for g, b in alts for g2, b2 in transform(op, k, a)]
        tail = [0] if op == 'fcn' else []
        m = op.upper() if upper else op
        ps = asm(ctx, pre + [(None, m, nodes)], isa=isa)
        w = '+'.join(kinds) if len(kinds) < 3 else '%d operands' % len(kinds)
        compare(ctx, rep, ps, [Case(w, g, cls='ok', bytes=b + tail) for g, b in alts], line_obs(ctx), seed=ctx.seed)
    return go


def long_string(op, n):
    def go(ctx, rep):
        a, z = chars(1, 'a', 0x41, 0x5a)[0], chars(1, 'z', 0x41, 0x5a)[0]
        s = [a] + [0x40 + i % 20 for i in range(n - 2)] + [z]
        b = [low(x) for x in s]
        if op == 'fcs':
            b[-1] = top(z)
        if op == 'fcn':
            b.append(0)
        if op == 'fci':
            b = [x ^ 0x40 if type(x) is int else byte(lform(-0x40, (x, 1))) for x in s]
        ps = asm(ctx, [(None, op, [('str', s)])])
        compare(ctx, rep, ps, [Case('long string', [], cls='ok', bytes=b)], line_obs(ctx), seed=ctx.seed)
    return go


def many(op, n):
    def go(ctx, rep):
        vs = [v64('v%d' % i) for i in range(n)]
        b = sum([be(v, SIZE[op]) for v in vs], [])
        if op == 'fcs':
            b = [top(v) for v in vs]
        if op == 'fcn':
            b.append(0)
        ps = asm(ctx, [(None, op, [('int', v) for v in vs])])
        compare(ctx, rep, ps, [Case('many operands', [], cls='ok', bytes=b)], line_obs(ctx), seed=ctx.seed)
    return go


def fill(op, counts, kind):
    def go(ctx, rep):
        for n in counts:
            v = v64('fill')
            f = {'none': None, 'int': ('int', v), 'float': ('float', fin('f')), 'empty': ('empty',), 'symbol': ('id', ['sym'])}[kind]
            b = {'none': 0, 'int': low(v), 'float': low(f2i(fin('f'))), 'empty': 0, 'symbol': low(v)}[kind]
            a = [('int', n)] + ([f] if f else [])
            pre = [(('id', ['sym']), 'equ', [('int', v)])] if kind == 'symbol' else []
            ps = asm(ctx, pre + [(None, op, a[::-1] if op == 'fill' else a), (None, 'fcb', [('int', 0xee)])])
            compare(ctx, rep, ps, [Case('count %s' % ('small' if n < 20 else 'large'), [], cls='ok', bytes=[b] * n + [0xee])], line_obs(ctx), seed=ctx.seed)
    return go


def count_kinds(op):
    """the count as a floating point number, through a symbol, through an expression"""
    def go(ctx, rep):
        for c, n in ((('float', 2.9), 2), (('float', 3.0), 3), (('id', ['n']), 5), (('op', ord('+'), ('id', ['n']), ('int', 2)), 7), (('op', ord('-'), ('id', ['n']), ('int', 5)), 0)):
            v = v64('fill')
            a = [c, ('int', v)]
            ps = asm(ctx, [(('id', ['n']), 'equ', [('int', 5)]), (None, op, a[::-1] if op == 'fill' else a), (None, 'fcb', [('int', 0xee)])])
            compare(ctx, rep, ps, [Case('count operand', [], cls='ok', bytes=[low(v)] * n + [0xee])], line_obs(ctx), seed=ctx.seed)
    return go


def bad_count(op, kind):
    def go(ctx, rep):
        for lo, hi, what in ((MIN64, -1, 'negative count'), (0x10001, MAX64, 'count beyond memory')):
            c = ('int', v64('c', lo, hi))
            f = [('int', v64('fill'))] if kind == 'int' else []
            ps = asm(ctx, [(None, op, f + [c] if op == 'fill' else [c] + f)])
            compare(ctx, rep, ps, [Case(what, [], cls='err', bytes=[])], line_obs(ctx), seed=ctx.seed)
    return go


def includebin(n, split=()):
    def go(ctx, rep):
        bs = chars(n, 'c', 0, 255)
        for i, v in split:
            if i < n:
                bs[i] = v
        old = dict(ctx.M.files)
        ctx.M.files = {b'f.bin': bs, b'g.bin': [1, 2]}
        try:
            ps = asm(ctx, [(None, 'fcb', [('int', 0x11)]), (None, 'includebin', [('str', 'f.bin')]), (None, 'fcb', [('int', 0x22)])])
            compare(ctx, rep, ps, [Case('file content', [], cls='ok', bytes=[0x11] + bs + [0x22])], line_obs(ctx), seed=ctx.seed)
        finally:
            ctx.M.files = old
    return go


def includebin_twice():
    def go(ctx, rep):
        a, b = chars(3, 'a', 0, 255), chars(2, 'b', 0, 255)
        old = dict(ctx.M.files)
        ctx.M.files = {b'f.bin': a, b'g.bin': b}
        try:
            inc = lambda n: (None, 'includebin', [('str', n)])
            ps = asm(ctx, [inc('f.bin'), inc('g.bin'), inc('f.bin')])
            compare(ctx, rep, ps, [Case('two files', [], cls='ok', bytes=a + b + a)], line_obs(ctx), seed=ctx.seed)
        finally:
            ctx.M.files = old
    return go


def includebin_fail(how):
    def go(ctx, rep):
        old, of = dict(ctx.M.files), ctx.M.faults
        M = ctx.M
        M.files = {b'f.bin': chars(3, 'c', 0, 255)}
        M.closed_world = True
        M.faults = set(['fread']) if how == 'read' else set()
        try:
            ps = asm(ctx, [(None, 'includebin', [('str', 'nofile' if how == 'missing' else 'f.bin')])])
            if how == 'missing':
                compare(ctx, rep, ps, [Case('missing file', [], cls='err')], line_obs(ctx), seed=ctx.seed)
            else:
                for p in ps:
                    o = line_obs(ctx)(p)
                    if o['cls'] == 'ok' and (o['bytes'] is None or len(o['bytes']) != 3):
                        rep.violation('includebin', 'a failed read is not diagnosed: %s bytes emitted' % len(o['bytes'] or []))
                    else:
                        rep.ok()
                rep.cases['read failure'] = rep.cases.get('read failure', 0) + len(ps)
        finally:
            M.files, M.faults, M.closed_world = old, of, False
    return go


def sequence(ops):
    """several directives in a row: bytes in line order"""
    def go(ctx, rep):
        lines, want = [], []
        for i, op in enumerate(ops):
            v = v64('v%d' % i)
            if op in ('rzb', 'fill'):
                lines.append((None, op, [('int', 2), ('int', v)] if op == 'rzb' else [('int', v), ('int', 2)]))
                want += [low(v)] * 2
            else:
                lines.append((None, op, [('int', v)]))
                want += [top(v)] if op == 'fcs' else be(v, SIZE[op])
                if op == 'fcn':
                    want.append(0)
        compare(ctx, rep, asm(ctx, lines), [Case('directives in a row', [], cls='ok', bytes=want)], line_obs(ctx), seed=ctx.seed)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog')
    deep = tier == 'thorough'
    out = []
    SK = ('int', 'float', 'imm', 'empty', 'symbol', 'str0', 'str1', 'str2', 'strsym')
    NK = ('int', 'float', 'imm', 'empty', 'symbol')
    for op in ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb'):
        ks = NK if op in ('fdb', 'fqb') else SK
        for n in (1, 2, 3):
            for kinds in itertools.product(ks, repeat=n):
                if op == 'fcs' and 'empty' in kinds:
                    continue        # not specified
                nc = sum({'str1': 1, 'str2': 2, 'strsym': 2}.get(k, 0) for k in kinds)
                if op in ('fcv', 'fci') and nc > 2:
                    continue
                if n == 3 and not deep and not set(kinds) <= {'int', 'str2', 'str0', 'float'}:
                    continue
                out.append(('%s %s' % (op, ','.join(kinds)), directive(op, kinds)))
        if op not in ('fdb', 'fqb'):
            out.append(('%s three characters' % op, directive(op, ('str3',))) if op not in ('fcv', 'fci') or deep else None)
            for n in (10, 126, 127, 128, 129, 130, 255, 256, 257, 300) + ((1000,) if deep else ()):
                out.append(('%s string of %d' % (op, n), long_string(op, n)) if op != 'fcv' or n > 0 else None)
        for n in (4, 8, 31, 32, 33, 64, 65, 127, 128, 129, 256, 300):
            out.append(('%s with %d operands' % (op, n), many(op, n)))
        for isa in (0, 1):
            out.append(('%s upper case isa%d' % (op, isa), directive(op, ('int', 'int'), isa, True)))
    counts = [list(range(0, 20)), [31, 32, 33, 64, 100], [126, 127, 128, 129, 130], [255, 256, 257, 300], [511, 512, 1024, 5000]] + ([[513, 4096, 32768, 40000]] if deep else [])
    for op in ('rzb', 'zmb', 'bsz', 'fzb', 'fill'):
        for kind in ('none', 'int', 'float', 'empty', 'symbol'):
            if op == 'fill' and kind in ('none', 'empty'):
                continue
            for c in counts:
                out.append(('%s counts %d.. fill %s' % (op, c[0], kind), fill(op, c, kind)))
        out.append(('%s count operand kinds' % op, count_kinds(op)))
        for kind in ('none', 'int'):
            if op != 'fill' or kind == 'int':
                out.append(('%s invalid count, fill %s' % (op, kind), bad_count(op, kind)))
    for n in list(range(0, 8)) + [126, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 9000] + ([32768, 40000] if deep else []):
        out.append(('includebin of %d bytes' % n, includebin(n)))
    out.append(('includebin, special bytes', includebin(8, [(0, 0xff), (1, 0), (2, 0x1a), (3, 0x0d), (4, 0x0a), (7, 0xff)])))
    out.append(('includebin twice', includebin_twice()))
    out.append(('includebin, missing file', includebin_fail('missing')))
    out.append(('includebin, read failure', includebin_fail('read')))
    for ops in itertools.permutations(('fcb', 'fcn', 'fcs', 'fdb', 'fqb', 'rzb', 'fill'), 3):
        out.append(('in a row: %s' % ', '.join(ops), sequence(ops)))
    out += embed.subjects('C16', tier)
    return [o for o in out if o]
