"""Parser for the textual LLVM 18 IR produced by build.py (subset clang emits for C at -O0 + mem2reg)."""
import re

TOK = re.compile(r'''c"(?:[^"])*"|"(?:[^"])*"|@"[^"]*"|%"[^"]*"|[@%!\#][-a-zA-Z$._0-9]+|[-+]?\d+\.\d+e[-+]?\d+|0x[0-9A-Fa-f]+|-?\d+|[a-zA-Z_][a-zA-Z_0-9.]*|\.\.\.|[()\[\]{}<>,=*!:|]''')


class TInt:
    __slots__ = ('w',)

    def __init__(s, w):
        s.w = w


class TPtr:
    pass


class TByval(TPtr):
    """pointer to a structure of n bytes passed by value"""
    __slots__ = ('byval',)

    def __init__(s, n):
        s.byval = n


class TFloat:
    __slots__ = ('w',)

    def __init__(s, w):
        s.w = w


class TVoid:
    pass


class TArr:
    __slots__ = ('n', 'e')

    def __init__(s, n, e):
        s.n = n
        s.e = e


class TStruct:
    __slots__ = ('name', 'fields', 'packed', 'offs', 'size_', 'align_')

    def __init__(s, name, fields, packed=False):
        s.name = name
        s.fields = fields
        s.packed = packed
        s.offs = None


class TFunc:
    __slots__ = ('ret', 'args', 'va')

    def __init__(s, ret, args, va):
        s.ret, s.args, s.va = ret, args, va


class TOther:
    __slots__ = ('n',)

    def __init__(s, n):
        s.n = n


PTR = TPtr()
VOID = TVoid()
_ints = {}


def INT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = TInt(w)
    return t


DOUBLE = TFloat(64)
FLOAT = TFloat(32)


def align_of(t):
    if isinstance(t, TInt):
        b = (t.w + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if isinstance(t, TPtr):
        return 8
    if isinstance(t, TFloat):
        return t.w // 8 if t.w <= 64 else 16
    if isinstance(t, TArr):
        return align_of(t.e)
    if isinstance(t, TStruct):
        layout(t)
        return t.align_
    raise TypeError(t)


def size_of(t):
    if isinstance(t, TInt):
        a = align_of(t)
        return ((t.w + 7) // 8 + a - 1) // a * a
    if isinstance(t, TPtr):
        return 8
    if isinstance(t, TFloat):
        return t.w // 8 if t.w <= 64 else 16
    if isinstance(t, TArr):
        return t.n * size_of(t.e)
    if isinstance(t, TStruct):
        layout(t)
        return t.size_
    raise TypeError(t)


def layout(t):
    if t.offs is not None:
        return
    off = 0
    al = 1
    offs = []
    for f in t.fields:
        a = 1 if t.packed else align_of(f)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(f)
        al = max(al, a)
    t.offs = offs
    t.align_ = al
    t.size_ = (off + al - 1) // al * al


# constants / operands
class CUndef:
    pass


class CZero:
    pass


CUNDEF = CUndef()
CZERO = CZero()


class CGlobal:
    __slots__ = ('name',)

    def __init__(s, n):
        s.name = n


class CAgg:
    __slots__ = ('elems',)

    def __init__(s, e):
        s.elems = e        # list of (type, const)


class CStr:
    __slots__ = ('b',)

    def __init__(s, b):
        s.b = b


class CExpr:
    __slots__ = ('op', 'args')

    def __init__(s, op, args):
        s.op = op
        s.args = args


class Reg:
    __slots__ = ('name',)

    def __init__(s, n):
        s.name = n


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'args', 'dbg', 'x')

    def __init__(s, op, dst, ty, args, dbg, x=None):
        s.op, s.dst, s.ty, s.args, s.dbg, s.x = op, dst, ty, args, dbg, x


class Function:
    __slots__ = ('name', 'ret', 'params', 'va', 'blocks', 'order', 'dbg', 'src')

    def __init__(s):
        s.blocks = {}
        s.order = []


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, const|None, isconst)
        self.funcs = {}
        self.decls = {}
        self.meta = {}


ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext returned nounwind immarg
inreg nofree noreturn writable dead_on_unwind allocptr dso_local internal private external global constant unnamed_addr
local_unnamed_addr common hidden weak linkonce_odr thread_local fastcc ccc tail musttail notail inbounds nsw nuw exact
volatile nnan ninf nsz arcp contract afn reassoc fast disjoint nneg'''.split())


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm', 'byval')

    def __init__(self, s, m):
        self.t = TOK.findall(s)
        self.i = 0
        self.m = m

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def skip_attrs(self):
        while self.i < len(self.t):
            x = self.t[self.i]
            if x in ATTRS:
                self.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'memory', 'allocsize', 'range'):
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == '(') - (y == ')')
                elif x == 'align':
                    self.i += 1
            elif x in ('byval', 'sret', 'elementtype'):
                self.i += 1
                self.expect('(')
                t = self.type()
                if x == 'byval':
                    self.byval = t
                self.expect(')')
            else:
                return

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x == 'double':
            t = DOUBLE
        elif x == 'float':
            t = FLOAT
        elif x == 'x86_fp80':
            t = TFloat(80)
        elif x[0] == 'i' and x[1:].isdigit():
            t = INT(int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = TArr(n, e)
        elif x == '<':
            if self.peek() == '{':
                t = self.type()
                t = TStruct(None, t.fields, True)
                self.expect('>')
            else:
                raise SyntaxError('vector')
        elif x == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = TStruct(None, fs)
        elif x[0] == '%':
            t = self.m.types.get(x[1:])
            if t is None:
                t = self.m.types[x[1:]] = TStruct(x[1:], None)
        elif x in ('metadata', 'label', 'token'):
            t = TOther(x)
        elif x == 'opaque':
            t = TStruct(None, [])
        else:
            raise SyntaxError('type %s in %s' % (x, ' '.join(self.t)))
        # function type
        if self.peek() == '(' and not isinstance(t, TOther):
            save = self.i
            try:
                self.next()
                args = []
                va = False
                if not self.accept(')'):
                    while True:
                        if self.accept('...'):
                            va = True
                        else:
                            args.append(self.type())
                            self.skip_attrs()
                        if self.accept(')'):
                            break
                        self.expect(',')
                return TFunc(t, args, va)
            except (SyntaxError, IndexError):
                self.i = save
        return t

    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return Reg(x[1:])
        if x[0] == '@':
            return CGlobal(x[1:].strip('"'))
        if x == 'null':
            return 0
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x in ('undef', 'poison'):
            return CUNDEF
        if x == 'zeroinitializer':
            return CZERO
        if x[:2] == 'c"':
            return CStr(unescape(x[2:-1]))
        if x in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                v = self.value(ty)
                self.expect('>')
                return v
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            return CAgg(el)
        if x == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            st = self.type()
            self.expect(',')
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return CExpr('gep', (st, ops))
        if x in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return CExpr(x, (t, v, t2))
        if isinstance(ty, TFloat):
            if x[:2] == '0x':
                import struct
                h = x[2:]
                if h[0] in 'KLMHR':
                    raise SyntaxError('fp80')
                return struct.unpack('>d', bytes.fromhex(h.zfill(16)))[0]
            return float(x)
        if isinstance(ty, TInt):
            return int(x) & ((1 << ty.w) - 1)
        raise SyntaxError('value %s in %s' % (x, ' '.join(self.t)))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast'.split())
DBG = re.compile(r', !dbg !(\d+)$')
TAILMD = re.compile(r'(, ![a-z.A-Z_]+ !\d+)+$')


def parse_instr(line, m):
    dbg = None
    mm = DBG.search(line)
    if mm:
        dbg = int(mm.group(1))
        line = line[:mm.start()]
    line = TAILMD.sub('', line)
    p = P(line, m)
    dst = None
    if len(p.t) > 1 and p.t[1] == '=':
        dst = p.next()[1:]
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, dst, t, (a, b), dbg)
    if op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Instr(op, dst, t, (a, b), dbg, pred)
    if op in CASTS:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Instr(op, dst, t2, (a,), dbg, t)
    if op == 'load':
        p.skip_attrs()
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr(op, dst, t, (a,), dbg)
    if op == 'store':
        p.skip_attrs()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        return Instr(op, None, t, (v, a), dbg)
    if op == 'getelementptr':
        p.skip_attrs()
        st = p.type()
        ops = []
        while p.accept(','):
            t = p.type()
            ops.append((t, p.value(t)))
        return Instr('gep', dst, st, tuple(ops), dbg)
    if op == 'alloca':
        t = p.type()
        n = 1
        if p.accept(','):
            if p.peek() != 'align':
                tt = p.type()
                n = p.value(tt)
        return Instr(op, dst, t, (n,), dbg)
    if op == 'br':
        if p.accept('label'):
            return Instr('jmp', None, None, (p.next()[1:],), dbg)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1:]
        return Instr('br', None, None, (c, a, b), dbg)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()[1:]))
        return Instr('switch', None, t, (v, d, cases), dbg)
    if op == 'ret':
        t = p.type()
        if isinstance(t, TVoid):
            return Instr('ret', None, t, (), dbg)
        return Instr('ret', None, t, (p.value(t),), dbg)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1:]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Instr('phi', dst, t, tuple(inc), dbg)
    if op == 'select':
        p.skip_attrs()
        t = p.type()
        c = p.value(t)
        p.expect(',')
        ta = p.type()
        a = p.value(ta)
        p.expect(',')
        tb = p.type()
        b = p.value(tb)
        return Instr('select', dst, ta, (c, a, b), dbg)
    if op == 'call':
        p.skip_attrs()
        t = p.type()
        p.skip_attrs()
        rt = t.ret if isinstance(t, TFunc) else t
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                if isinstance(at, TOther):
                    # metadata operand: not represented
                    return Instr('nop', None, None, (), dbg)
                p.byval = None
                p.skip_attrs()
                if p.byval is not None:
                    at = TByval(size_of(p.byval))
                args.append((at, p.value(at)))
                if p.accept(')'):
                    break
                p.expect(',')
        return Instr('call', dst, rt, tuple(args), dbg, callee)
    if op == 'unreachable':
        return Instr('unreachable', None, None, (), dbg)
    if op == 'fneg':
        p.skip_attrs()
        t = p.type()
        return Instr('fneg', dst, t, (p.value(t),), dbg)
    if op == 'freeze':
        t = p.type()
        return Instr('freeze', dst, t, (p.value(t),), dbg)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, dst, t, (v,), dbg, idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        e = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, dst, t, (v, e), dbg, (idx, t2))
    raise SyntaxError('instr: ' + line)


def parse(path):
    m = Module()
    with open(path) as f:
        lines = f.read().split('\n')
    # types first
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            n, rest = ln.split(' = type ', 1)
            p = P(rest, m)
            n = n[1:].strip('"')
            if rest.startswith('opaque'):
                m.types.setdefault(n, TStruct(n, [])).fields = []
                continue
            t = p.type()
            cur = m.types.setdefault(n, TStruct(n, None))
            cur.fields = t.fields
            cur.packed = t.packed
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln:
            continue
        c0 = ln[0]
        if c0 == '@':
            ln = re.sub(r'(, (align \d+|!dbg !\d+|comdat.*|section "[^"]*"))+$', '', ln)
            name, rest = ln.split(' = ', 1)
            p = P(rest, m)
            ext = False
            const = False
            while p.peek() in ATTRS:
                x = p.next()
                ext |= x == 'external'
                const |= x == 'constant'
            t = p.type()
            v = None
            if not ext:
                v = p.value(t)
            m.globals[name[1:].strip('"')] = (t, v, const)
        elif c0 == '!':
            k, v = ln.split(' = ', 1)
            if k[1:].isdigit():
                m.meta[int(k[1:])] = v
        elif ln.startswith('declare'):
            p = P(ln, m)
            p.next()
            p.skip_attrs()
            t = p.type()
            rt = t
            name = p.next()[1:]
            m.decls[name] = rt
        elif ln.startswith('define'):
            mm = re.search(r'!dbg !(\d+)', ln)
            p = P(ln, m)
            p.next()
            p.skip_attrs()
            f = Function()
            f.ret = p.type()
            f.name = p.next()[1:].strip('"')
            f.dbg = int(mm.group(1)) if mm else None
            f.params = []
            f.va = False
            p.expect('(')
            if not p.accept(')'):
                while True:
                    if p.accept('...'):
                        f.va = True
                    else:
                        t = p.type()
                        p.skip_attrs()
                        f.params.append((t, p.next()[1:]))
                    if p.accept(')'):
                        break
                    p.expect(',')
            cur = None
            while True:
                ln = lines[i]
                i += 1
                if ln == '}':
                    break
                if not ln:
                    continue
                if ln[0] not in ' \t':
                    cur = ln.split(':', 1)[0].strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
                s = ln.strip()
                if 'llvm.dbg.' in s:
                    continue
                if s.startswith('switch'):
                    while ']' not in s:
                        s += ' ' + lines[i].strip()
                        i += 1
                if cur is None:
                    cur = 'entry'
                    f.blocks[cur] = []
                    f.order.append(cur)
                try:
                    ins = parse_instr(s, m)
                except (SyntaxError, IndexError, ValueError, AttributeError) as e:
                    ins = Instr('unsupported: ' + s[:60], None, None, (), None)
                f.blocks[cur].append(ins)
            m.funcs[f.name] = f
    return m


# ---- debug info: struct layouts, enumerators, source locations ----

MD_FIELD = re.compile(r'(\w+): (!\d+|"[^"]*"|-?\w+(?: \| \w+)*)')


class Debug:
    def __init__(self, m):
        self.m = m
        self.raw = m.meta
        self._locs = {}
        self.structs = {}
        self.enums = {}
        for k, v in m.meta.items():
            if v.startswith('!DIEnumerator('):
                d = dict(MD_FIELD.findall(v))
                self.enums[d['name'].strip('"')] = int(d['value'])
            elif v.startswith(('!DICompositeType(tag: DW_TAG_structure_type', 'distinct !DICompositeType(tag: DW_TAG_structure_type')):
                d = dict(MD_FIELD.findall(v))
                nm = d.get('name', '').strip('"')
                if nm and 'elements' in d and nm not in self.structs:
                    self.structs[nm] = (k, int(d['size']) // 8)

    def fields(self, struct):
        k, size = self.structs[struct]
        return self._elements(k)

    def md(self, n):
        return dict(MD_FIELD.findall(self.raw[n]))

    def _elements(self, k):
        d = self.md(k)
        el = self.raw[int(d['elements'][1:])]
        out = {}
        for x in re.findall(r'!(\d+)', el):
            e = self.md(int(x))
            if 'name' not in e:
                continue
            out[e['name'].strip('"')] = (int(e.get('offset', 0)) // 8, int(e['size']) // 8 if 'size' in e else None, e.get('baseType'))
        return out

    def field(self, struct, *path):
        """(offset, size) of a (possibly nested) member"""
        k, _ = self.structs[struct]
        off = 0
        size = None
        for i, nm in enumerate(path):
            fs = self._elements(k)
            o, size, bt = fs[nm]
            off += o
            if i + 1 < len(path):
                b = int(bt[1:])
                while 'elements' not in self.md(b):
                    b = int(self.md(b)['baseType'][1:])
                k = b
        return off, size

    def sizeof(self, struct):
        return self.structs[struct][1]

    def loc(self, n):
        if n is None:
            return '?'
        r = self._locs.get(n)
        if r is None:
            d = self.md(n)
            r = '?'
            if 'line' in d:
                sc = d.get('scope')
                f = None
                hops = 0
                while sc and hops < 20:
                    e = self.md(int(sc[1:]))
                    if 'file' in e:
                        f = self.md(int(e['file'][1:])).get('filename', '"?"').strip('"')
                        break
                    sc = e.get('scope')
                    hops += 1
                r = '%s:%s' % (f.rsplit('/', 2)[-1] if f and not f.startswith('src/') else f, d['line'])
            self._locs[n] = r
        return r
