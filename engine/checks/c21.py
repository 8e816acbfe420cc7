"""Abstract interpretation of whole runs that write a listing.  (a) Every instruction in every addressing
mode and every data directive, with abstract operands at an abstract address: the bytes shown equal, item
by item, the bytes of the output written by the same run, and the address is the one assigned.  (b) Every
program of up to two (three for the ones that move) lines drawn from every kind of line, against the
addresses and bytes of the documented layout.  (c) Macros, included files, conditionals, several passes
and sources with abstract characters: one line each, in order, with its text."""
import itertools
from outfmt import *
from oracle import INSTR
RULE = 'subject = instruction or directive x operand form | program of lines; obligation = (trace partition, listing line)'
TECHNIQUE = 'abstract interpretation of whole runs relating the listing to the emitted bytes'
HEX = set(b'0123456789ABCDEF')


def split(items):
    out, cur = [], []
    for x in items:
        if x == 10:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def width(x):
    return 2 if type(x) is tuple and x[0] == 'x' else 1


def parse_line(l):
    """(address items | None, byte items, rest) of one listing line"""
    ishex = lambda x: (type(x) is tuple and x[0] == 'x') or (type(x) is int and x in HEX)
    if not l or not ishex(l[0]):
        return None, [], l
    i = w = 0
    while i < len(l) and w < 4 and ishex(l[i]):
        w += width(l[i])
        i += 1
    if w != 4 or l[i:i + 2] != [32, 32]:
        return None
    a = l[:i]
    i += 2
    j, w = i, 0
    while j < len(l) and ishex(l[j]):
        w += width(l[j])
        j += 1
    if w % 2:
        return None
    return a, l[i:j], l[j:]


def expand(text):
    out, col = [], 0
    for c in text:
        if c == 9:
            n = 8 - col % 8
            out += [32] * n
            col += n
        else:
            out.append(c)
            col += 1
    return out


def same_items(st, got, want):
    """None when equal, else (message, differ predicate, values)"""
    got, want = flat([norm(st, x) for x in got]), flat([norm(st, x) for x in want])
    if len(got) != len(want):
        return '%s, expected %s' % (show_items(got), show_items(want)), None, ()
    for g, w in zip(got, want):
        if g == w:
            continue
        r, d, v = item_diff(st, g, w)
        if r is not True:
            return '%s, expected %s' % (show_items(got), show_items(want)), d, v
    return None


def text_of(t):
    return [x if type(x) is int else ('b', x) for x in expand(list(t.encode('latin-1')) if isinstance(t, str) else list(t))]


def has_text(st, rest, t):
    t = text_of(t)
    k = len(rest) - len(t)
    if k < 1 or any(x != 32 for x in rest[:k]):
        return 'text %s, expected %s' % (show_items(rest), show_items(t)), None, ()
    return same_items(st, rest[k:], t)


def listing(st, name='lst'):
    ev = [s for s in streams(st) if s['name'] == name]
    if len(ev) != 1:
        return None
    items = stream(st, ev[0]['out'])
    if any(type(x) is tuple and x[0] == 'wide' for x in items):
        for x in items:
            if type(x) is tuple and x[0] == 'wide':
                s2 = st.clone()
                lf = u_lf(x[1], x[3])
                if s2.assume([('lin', lf[0], lf[1], 16 ** x[2], (1 << x[3]) - 1)]) and prove.feasible(s2):
                    return 'wide'
        items = [x for x in items if not (type(x) is tuple and x[0] == 'wide')]
    items = flat([norm(st, x) for x in items])
    return [parse_line(l) for l in split(items)], split(items)


def check_listing(ctx, rep, ps, want, what, out=None):
    """want: list of (text, None | (address items, byte items)) ; bytes 'out' = the whole output"""
    from check import _confirm
    for p in ps:
        def bad(msg, d=None, v=()):
            _confirm(ctx, rep, p.st, p, d, v, '%s: %s' % (what, msg), ctx.seed, 400)
        if p.status == 'alarm':
            bad('assembler fault: %s: %s at %s' % (p.value[0], p.value[1], p.loc))
            continue
        if exit_code(p) != 0:
            if out == 'any':
                rep.cases['not assembled'] = rep.cases.get('not assembled', 0) + 1
                rep.ok()
            else:
                bad('the run failed (%s)' % messages_of(p))
            continue
        r = listing(p.st)
        if r is None or r == 'wide':
            bad('no listing' if r is None else 'field too wide')
            continue
        got, raw = r
        if any(g is None for g in got):
            i = got.index(None)
            bad('line %d is %s' % (i, show_items(raw[i])))
            continue
        if len(got) != len(want):
            bad('%d lines listed, expected %d' % (len(got), len(want)))
            continue
        err = None
        for i, ((a, b, rest), (t, w)) in enumerate(zip(got, want)):
            if w is None:
                e = ('bytes %s on a line that emits nothing' % show_items(b), None, ()) if b else None
            else:
                wa, wb = w
                if wb == 'out':
                    ev = [s for s in streams(p.st) if s['name'] == 'out']
                    wb = [(('x', x[1]) if type(x) is tuple else x) for x in stream(p.st, ev[0]['out'])]
                    wb = sum([X(x) if type(x) is int else [x] for x in wb], [])
                e = ('no address', None, ()) if a is None else same_items(p.st, a, wa)
                if e and a is not None:
                    e = ('address %s' % e[0],) + e[1:]
                if not e:
                    e = same_items(p.st, b, wb)
                    if e:
                        e = ('bytes %s' % e[0],) + e[1:]
            if not e:
                e = has_text(p.st, rest, t)
            if e:
                err = e
                bad('line %d: %s' % (i, e[0]), e[1], e[2])
                break
            rep.ok()
        if not err:
            rep.cases[what] = rep.cases.get(what, 0) + 1


def addr_items(v):
    return X(*(byte(v, 8), byte(v))) if type(v) is S else X(v >> 8 & 255, v & 255)


# ---- every instruction and directive: shown bytes against written bytes

def one_line(op, args, isa=0, pre=(), files=None, lo=0, hi=0xf000, post=()):
    def go(ctx, rep):
        ctx.M.files = {}
        a = v64('base', lo, hi)
        ls = [l + ('pre',) for l in pre] + [(None, 'org', [('int', a)], ' org'), (None, op, args(ctx) if callable(args) else args, ' the line')] + [l + ('post',) for l in post]
        import c21
        ps = run_lines(ctx, ls, ['-B', '-o', 'out', '-l', 'lst'] + (['-3'] if isa else []), files or {})
        check_listing(ctx, rep, ps, [('pre', None)] * len(pre) + [(' org', None), (' the line', (addr_items(a), 'out'))] + [('post', None)] * len(post), 'one line', 'any')
    return go


def run_lines(ctx, ls, argv, files):
    from c10 import run_passes as rp
    import common
    M = ctx.M
    if files:
        old = common.run_main

        def rm(ctx, argv, fs, **k):
            return old(ctx, argv, {**fs, **files}, **k)
        import c10
        c10.run_main = rm
        try:
            return rp(ctx, [ls], None, argv)
        finally:
            c10.run_main = old
    return rp(ctx, [ls], None, argv)


def modes(ctx_free=None):
    """(name, isa, mnemonic, operands builder)"""
    v = v64('v')
    off = v64('off', -70000, 70000)
    out = []
    for isa in (0, 1):
        for m, d in INSTR[isa].items():
            if isa and m in INSTR[0] and INSTR[0][m] == d:
                continue
            for mode in d:
                mem = mode.startswith('imm') and mode[3:] in ('dir', 'ext', 'idx')
                im = (lambda ctx: [imm(ctx, ('int', v64('mask', 0, 255)))]) if mem else (lambda ctx: [])
                md = mode[3:] if mem else mode
                if md in ('inh',):
                    f = None
                elif md in ('imm8', 'imm16', 'imm32'):
                    f = lambda ctx: [imm(ctx, ('int', v))]
                elif md == 'dir':
                    f = lambda ctx, im=im: im(ctx) + [a8(ctx, ('int', v))]
                elif md == 'ext':
                    f = lambda ctx, im=im: im(ctx) + [a16(ctx, ('int', v))]
                elif md == 'idx':
                    f = lambda ctx, im=im: im(ctx) + [('int', off), reg('X')]
                elif md in ('rel8', 'rel16'):
                    f = lambda ctx: [('op', ord('+'), ('pc',), ('int', v64('d', -100, 100)))]
                elif md == 'pair':
                    f = lambda ctx: [reg('X'), reg('Y')]
                elif md in ('stks', 'stku'):
                    f = lambda ctx: [reg('X'), reg('A')]
                else:
                    continue
                out.append(('%s %s on %s' % (m, mode, ('6809', '6309')[isa]), isa, m, f))
    return out


def directives():
    v = v64('v')
    w = v64('w')
    s = [inp('s%d' % i, 8, 1, 255) for i in range(3)]
    I = lambda x: ('int', x)
    D = {
        'fcb one': ('fcb', [I(v)]), 'fcb three': ('fcb', [I(v), I(w), I(3)]), 'fcb string': ('fcb', [('str', s)]), 'fcc': ('fcc', [('str', s)]), 'fcc and numbers': ('fcc', [('str', s), I(v)]), 'fcn': ('fcn', [('str', s)]), 'fcs': ('fcs', [('str', s)]),
        'fcv': ('fcv', [('str', 'AZaz09')]), 'fci': ('fci', [('str', 'AZaz09')]), 'fcb float': ('fcb', [('float', 2.5)]), 'fdb': ('fdb', [I(v)]), 'fdb two': ('fdb', [I(v), I(w)]), 'fqb': ('fqb', [I(v)]), 'rzb': ('rzb', [I(5)]), 'fzb': ('fzb', [I(1)]), 'bsz': ('bsz', [I(20)]),
        'fill': ('fill', [I(v), I(6)]), 'fill one': ('fill', [I(v), I(1)]), 'includebin': ('includebin', [('str', 'bin')]), 'long fcc': ('fcc', [('str', 'abcdefghijklmnopqrstuvwxyz')]), 'fdb address': ('fdb', [('pc',)]),
        'eight bytes': ('fdb', [I(1), I(2), I(3), I(4)]), 'nine bytes': ('fcb', [I(i) for i in range(9)]), 'seven bytes': ('fcb', [I(i) for i in range(7)]),
    }
    return D


# ---- programs of lines

def plus(v, n):
    return v + n if type(v) is int else mk(64, v.c + n, dict(v.t))


class P:
    def __init__(self):
        self.ls, self.want = [], []
        self.base = v64('base', 0, 0x4000)
        self.off = 0            # of the location counter from the base, or absolute
        self.abs = None
        self.put = self.base    # load address
        self.n = 0

    def pc(self):
        return mk(64, self.base.c + self.off, dict(self.base.t)) if self.abs is None else self.abs

    def add(self, label, op, args, text=None, emit=None, size=None):
        self.n += 1
        t = text if text is not None else ' line %d' % self.n
        self.ls.append((label, op, args, t))
        a = self.pc()
        self.want.append((t, None if emit is None else (addr_items(a), sum([X(b) for b in emit], []))))
        n = size if size is not None else len(emit or [])
        self.put = plus(self.put, n)
        if self.abs is None:
            self.off += n
        else:
            self.abs += n

    def step(self, c):
        i = self.n
        b = v64('b%d' % i, 0, 255)
        if c == '1':
            self.add(None, 'fcb', [('int', b)], emit=[byte(b)])
        elif c == '3':
            self.add(('id', ['l%d' % i]), 'fcb', [('int', b), ('int', 2), ('int', 3)], emit=[byte(b), 2, 3])
        elif c == 'i':
            self.add(None, 'lda', [('attr', ('int', b), self.E['node_attr_immediate'])], emit=[0x86, byte(b)])
        elif c == 'n':
            self.add(('id', ['n%d' % i]), 'nop', None, emit=[0x12])
        elif c == 'r':
            self.add(None, 'rmb', [('int', 2)], size=2)
        elif c == 'o':
            self.add(None, 'org', [('int', mk(64, self.base.c + 0x100 * (i + 1), dict(self.base.t)))])
            self.abs, self.off = None, 0x100 * (i + 1)
            self.put = self.pc()
        elif c == 'R':
            # assembled for another address, loaded right after what went before
            put = self.put
            self.step('o')
            self.add(None, 'put', [('int', put)])
            self.put = put
        elif c == 'K':
            self.add(None, 'org', [('int', self.pc())])
            self.put = self.pc()
        elif c == 'p':
            self.add(None, 'put', [('int', 0x6000 + 0x100 * i)])
            self.put = 0x6000 + 0x100 * i
        elif c == 's':
            self.add(None, 'section', [('str', 'sec%d' % i)])
            self.add(None, 'org', [('int', 0x8000 + 0x100 * i)])
            self.abs = self.put = 0x8000 + 0x100 * i
        elif c == 'a':
            self.add(None, 'align', [('int', 1)])
        elif c == 'z':
            self.add(None, 'rzb', [('int', 2)], emit=[0, 0])
        elif c == 'e':
            self.add(('id', ['e%d' % i]), 'equ', [('int', b)])
        elif c == 't':
            self.add(('id', ['t%d' % i]), 'set', [('str', 'text')])
        elif c == 'l':
            self.add(('id', ['x%d' % i]), None, None)
        elif c == '#':
            self.add(None, None, None, text='* comment %d' % i)
        elif c == ' ':
            self.add(None, None, None, text='')
        elif c == 'f':
            self.add(None, 'opt', None)
        elif c == 'c':
            self.add(None, 'fcc', [('str', '')])
        elif c == 'd':
            self.add(None, 'setdp', [('int', 5)])
        elif c == 'x':
            self.add(None, 'export', [('id', ['base'])])
        elif c == '0':
            self.add(None, 'rmb', [('int', 0)])
        elif c == 'q':
            self.add(None, 'if', [('int', b)]) if False else self.add(None, 'if', [('int', 0)])
            self.add(None, 'fcb', [('int', 1)])
            self.add(None, 'else', None)
            self.add(None, 'fcb', [('int', b)], emit=[byte(b)])
            self.add(None, 'endif', None)
        elif c == 'm':
            self.add(('id', ['m%d' % i]), 'macro', None)
            self.add(None, 'fcb', [('id', [('interp', '1')])], text=' fcb \\1')
            self.add(None, 'endm', None)
            self.add(None, 'm%d' % i, [('int', b)])
            self.add(None, 'opt', None, text=' fcb \\1', emit=[byte(b)])
            self.ls.pop()
            self.n -= 1
        elif c == 'y':
            self.add(None, 'includebin', [('str', 'bin')], emit=[0xde, 0xad, 0x0d])
        elif c == 'E':
            self.add(None, 'end', None)


def program(w):
    def go(ctx, rep):
        q = P()
        q.E = ctx.d.enums
        q.add(('id', ['base']), 'org', [('int', q.base)])
        for c in w:
            q.step(c)
        ps = run_lines(ctx, q.ls, ['-l', 'lst'], {'bin': [0xde, 0xad, 0x0d]} if 'y' in w else {})
        check_listing(ctx, rep, ps, q.want, 'program')
    return go


# ---- sources

def H(s):
    return list(bytes.fromhex(s))


def source(name):
    def go(ctx, rep):
        src, want, files = SRC[name]
        ps = run_main(ctx, ['-l', 'lst', 'in.s'], {'in.s': src, **files})
        check_listing(ctx, rep, ps, [(t, None if w is None else (addr_items(w[0]), sum([X(b) for b in H(w[1])], []))) for t, w in want], name)
    return go


N = None
SRC = {
    'ordinary': ('; start\n org $1000\nstart lda #1\n\tsta\t$4000 ; store\n\n rts\n', [('; start', N), (' org $1000', N), ('start lda #1', (0x1000, '8601')), ('\tsta\t$4000 ; store', (0x1002, 'b74000')), ('', N), (' rts', (0x1005, '39'))], {}),
    'tabs': ('\tnop\na_long_label\tnop\t\t;comment\n\t\tnop\n12345678\tnop\n', [('\tnop', (0, '12')), ('a_long_label\tnop\t\t;comment', (1, '12')), ('\t\tnop', (2, '12')), ('12345678\tnop', (3, '12'))], {}),
    'included file': (' nop\n include "inc"\n rts\n', [(' nop', (0, '12')), (' include "inc"', N), (' ldb #2', (1, 'c602')), ('* end of it', N), (' rts', (3, '39'))], {'inc': ' ldb #2\n* end of it\n'}),
    'included data': (' includebin "bin"\n rts\n', [(' includebin "bin"', (0, '010203')), (' rts', (3, '39'))], {'bin': [1, 2, 3]}),
    'macro': ('m macro\n lda #\\1\n endm\n m 5\n m 6\n', [('m macro', N), (' lda #\\1', N), (' endm', N), (' m 5', N), (' lda #\\1', (0, '8605')), (' m 6', N), (' lda #\\1', (2, '8606'))], {}),
    'nested macros': ('i macro\n fcb \\1\n endm\no macro\n i \\1\n i \\2\n endm\n o 5,6\n', [('i macro', N), (' fcb \\1', N), (' endm', N), ('o macro', N), (' i \\1', N), (' i \\2', N), (' endm', N), (' o 5,6', N), (' i \\1', N), (' fcb \\1', (0, '05')), (' i \\2', N), (' fcb \\1', (1, '06'))], {}),
    'conditional': (' if 0\n nop\n else\n rts\n endif\n if 1\n nop\n elsif 1\n rts\n endif\n', [(' if 0', N), (' nop', N), (' else', N), (' rts', (0, '39')), (' endif', N), (' if 1', N), (' nop', (1, '12')), (' elsif 1', N), (' rts', N), (' endif', N)], {}),
    'forward reference': (' org $2000\n ldx #there\n jmp there\nthere rts\n', [(' org $2000', N), (' ldx #there', (0x2000, '8e2006')), (' jmp there', (0x2003, '7e2006')), ('there rts', (0x2006, '39'))], {}),
    'settles late': (' bra next\n jmp next\n fcb next\nnext rts\n', [(' bra next', (0, '2004')), (' jmp next', (2, '7e0006')), (' fcb next', (5, '06')), ('next rts', (6, '39'))], {}),
    'put': (' org $c000\n put $2000\n nop\n fdb *\n org $1000\n nop\n', [(' org $c000', N), (' put $2000', N), (' nop', (0xc000, '12')), (' fdb *', (0xc001, 'c001')), (' org $1000', N), (' nop', (0x1000, '12'))], {}),
    'sections': (' section "a"\n org $1000\n nop\n section "b"\n org $2000\n rts\n section "a"\n fcb 1\n section "b"\n fcb 2\n', [(' section "a"', N), (' org $1000', N), (' nop', (0x1000, '12')), (' section "b"', N), (' org $2000', N), (' rts', (0x2000, '39')), (' section "a"', N), (' fcb 1', (0x1001, '01')), (' section "b"', N), (' fcb 2', (0x2001, '02'))], {}),
    'reserved': (' nop\nbuf rmb 10\n nop\n rmb 0\n nop\n nop\n', [(' nop', (0, '12')), ('buf rmb 10', N), (' nop', (11, '12')), (' rmb 0', N), (' nop', (12, '12')), (' nop', (13, '12'))], {}),
    'end of file without newline': (' nop\n rts', [(' nop', (0, '12')), (' rts', (1, '39'))], {}),
    'after END': (' nop\n end\n', [(' nop', (0, '12')), (' end', N)], {}),
    'top of memory': (' org $fffe\n nop\n rts\n', [(' org $fffe', N), (' nop', (0xfffe, '12')), (' rts', (0xffff, '39'))], {}),
    'carriage returns': (' nop\r\n rts\r\n', None, {}),
    'overlapping labels': ('a1 equ 5\na2 set 6\na3 nop\n lda #a1\n', [('a1 equ 5', N), ('a2 set 6', N), ('a3 nop', (0, '12')), (' lda #a1', (1, '8605'))], {}),
    'long line': (' fcc "0123456789012345678901234567890123456789"\n nop\n', [(' fcc "0123456789012345678901234567890123456789"', (0, b'0123456789012345678901234567890123456789'.hex())), (' nop', (40, '12'))], {}),
    'align': (' nop\n align 4\n nop\n align 4,$ff\n nop\n', [(' nop', (0, '12')), (' align 4', N), (' nop', (4, '12')), (' align 4,$ff', (5, 'ffffff')), (' nop', (8, '12'))], {}),
    'data after RMB': (' rmb 3\n fcb 1\n rmb 2\n fdb 2,3\n org $100\n fcb 4\n rmb 1\n lda #5\n', [(' rmb 3', N), (' fcb 1', (3, '01')), (' rmb 2', N), (' fdb 2,3', (6, '00020003')), (' org $100', N), (' fcb 4', (0x100, '04')), (' rmb 1', N), (' lda #5', (0x102, '8605'))], {}),
    'two files': None,
}


def two_files():
    def go(ctx, rep):
        ps = run_main(ctx, ['-l', 'lst', 'a.s', 'b.s'], {'a.s': ' nop\n', 'b.s': '* second\n rts\n'})
        check_listing(ctx, rep, ps, [(' nop', (addr_items(0), X(0x12))), ('* second', None), (' rts', (addr_items(1), X(0x39)))], 'two files')
    return go


def text_chars(n, where):
    """comment text of any characters"""
    def go(ctx, rep):
        ch = [inp('ch%d' % i, 8, 0x21 if n == 1 else 0x61, 0x7e if n == 1 else 0x7a) for i in range(n)]
        t = {'comment': list(b';') + ch, 'after an instruction': list(b' nop ;') + ch, 'string': list(b' fcc "') + [inp('q%d' % i, 8, 0x30, 0x5a) for i in range(n)] + list(b'"')}[where]
        w = {'comment': None, 'after an instruction': (addr_items(0), X(0x12)), 'string': (addr_items(0), sum([X(zx8(c)) for c in t[6:-1]], []))}[where]
        ps = run_main(ctx, ['-l', 'lst', 'in.s'], {'in.s': t + [10]})
        check_listing(ctx, rep, ps, [(t, w)], 'characters')
    return go


def large(what):
    """many lines, many bytes on a line, large blocks, long lines"""
    def go(ctx, rep):
        T, want, files, at = [], [], {}, [0x100]

        def line(text, data=None, skip=None):
            T.append(text)
            if data is None:
                want.append((text, None))
            else:
                want.append((text, (X(at[0] >> 8, at[0] & 255), X(*data))))
                at[0] += len(data)
            if skip:
                at[0] += skip
        line(' org $100')
        if what == 'many lines':
            for i in range(300):
                line('l%d fcb %d' % (i, i & 255) if i % 3 else ' fdb l%d,%d' % (max(i - 2, 1), i), [i & 255] if i % 3 else None)
                if i % 3 == 0:
                    j = max(i - 2, 1)
                    a = 0x100 + sum(1 if k % 3 else 4 for k in range(j))
                    want[-1] = (T[-1], (X(at[0] >> 8, at[0] & 255), X(a >> 8, a & 255, i >> 8, i & 255)))
                    at[0] += 4
        elif what == 'many bytes':
            for n in (8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 700):
                d = [(i * 7 + n) % 90 + 33 for i in range(n)]
                d = [x if x not in (0x22, 0x26, 0x5c, 0x2f) else 0x30 for x in d]
                line(' fcc "%s"' % bytes(d).decode(), d)
                line(' fill %d,%d' % (n & 255, n), [n & 255] * n)
        elif what == 'included data':
            for i, n in enumerate((100, 255, 256, 1000, 5000)):
                files['bin%d' % i] = [(i * 3 + k * 11 + (k >> 8)) & 255 for k in range(n)]
                line(' includebin "bin%d"' % i, files['bin%d' % i])
        elif what == 'far into a block':
            for i, n in enumerate((0x300, 0x3000, 0x4fff, 0x1000, 0x3000)):
                line(' rzb %d' % n, [0] * n)
                line(' fdb *,%d' % i, [at[0] >> 8, at[0] & 255, 0, i])
        elif what == 'long lines':
            for n in (70, 127, 128, 200, 255, 256, 257, 1000, 3000):
                line(' nop ; ' + 'x' * n, [0x12])
                line('* ' + 'y' * n)
                line(' lda #%s5' % ('0' * n), [0x86, 5])
                line('L%s%d nop' % ('z' * n, n), [0x12])
        elif what == 'many blocks':
            for i in range(120):
                at[0] = 0x8000 + i * 0x40 if i & 1 else 0x7000 - i * 0x20
                line(' org $%04x' % at[0])
                line(' fcb %d,%d' % (i, 255 - i), [i, 255 - i])
        keep, ctx.M.max_steps = ctx.M.max_steps, 60e6
        try:
            ps = run_main(ctx, ['-l', 'lst', 'in.s'], {'in.s': list(('\n'.join(T) + '\n').encode()), **files})
            check_listing(ctx, rep, ps, want, what)
        finally:
            ctx.M.max_steps = keep
    return go


def zx8(c):
    return c


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog')
    deep = tier == 'thorough'
    out = []
    for n, isa, m, f in modes():
        out.append((n, one_line(m, f, isa)))
    for n, (op, a) in directives().items():
        files = {'bin': [inp('f%d' % i, 8, 0, 255) for i in range(3)]} if op == 'includebin' else None
        out.append(('%s at any address' % n, one_line(op, a, 0, (), files)))
        if deep or n in ('fcb three', 'fdb', 'fill', 'includebin'):
            out.append(('%s after RMB' % n, one_line(op, a, 0, (), files, post=((None, 'rmb', [('int', 3)]),))))
    ALL = '13inropsRKaz' + 'etl# fcdx0qmyE'
    for k in (0, 1, 2):
        for w in itertools.product(ALL, repeat=k):
            if 'E' in w[:-1]:
                continue
            out.append(('program "%s"' % ''.join(w), program(w)))
    for k in (3, 4) if deep else (3,):
        for w in itertools.product('1iropsR' if k == 4 else '13irosR', repeat=k):
            out.append(('program "%s"' % ''.join(w), program(w)))
    for n in SRC:
        if n not in ('two files', 'carriage returns'):
            out.append(('source: %s' % n, source(n)))
    out.append(('source: two files', two_files()))
    for w in ('comment', 'after an instruction', 'string'):
        for n in ((1, 2) if deep or w != 'string' else (1,)):
            out.append(('%d characters of %s' % (n, w), text_chars(n, w)))
    for w in ('many lines', 'many bytes', 'included data', 'far into a block', 'long lines', 'many blocks'):
        out.append((w, large(w)))
    return out
