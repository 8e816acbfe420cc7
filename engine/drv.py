"""Builds abstract input states with the program's own constructors and reads results back."""
import os, sys, tempfile, shutil, atexit, time
from vals import *
import ir as IR
import machine
from machine import Machine, State, Path, Fork, Alarm, Gap, ExitPath, inp, PUSHED

_cache = {}


class AnchorMissing(Exception):
    pass


def load_module(want_xml=False):
    """compile /repo and parse; returns (module, debug, scratch dir)"""
    import build
    d = os.environ.get('VERIF_SCRATCH')
    if d and os.path.exists(os.path.join(d, 'all.ll')):
        final = os.path.join(d, 'all.ll')
    else:
        d = tempfile.mkdtemp(prefix='verif-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        final, units = build.build(d, want_xml)
    m = IR.parse(final)
    return m, IR.Debug(m), d


class Ctx:
    """one analysed module plus helpers"""

    def __init__(self, module=None, dbg=None):
        if module is None:
            module, dbg, self.dir = load_module()
        self.m = module
        self.d = dbg
        self.M = Machine(module, dbg)
        self.need_fns = set()
        import oracle
        for r in list(oracle.REGS):
            if 'REG_' + r not in self.d.enums:
                raise AnchorMissing('enum REG_%s' % r)
            oracle.REGS[r] = self.d.enums['REG_' + r]

    def need(self, *names):
        for n in names:
            if n not in self.m.funcs:
                raise AnchorMissing('function %s not found' % n)

    def field(self, s, *p):
        try:
            return self.d.field(s, *p)
        except Exception as e:
            raise AnchorMissing('struct %s field %s not found' % (s, '.'.join(p)))

    # ---- field access
    def get(self, st, p, struct, *path, kind='i'):
        off, size = self.field(struct, *path)
        return self.M.load(st, Ptr(p.o, p.off + off), size, kind)

    def put(self, st, p, v, struct, *path):
        off, size = self.field(struct, *path)
        self.M.store(st, Ptr(p.o, p.off + off), size, v)

    def glob(self, name):
        if name not in self.M.gobj:
            # static globals may be renamed on link (name.123): exact match only
            c = [g for g in self.M.gobj if g.split('.')[0] == name]
            if len(c) == 1:
                name = c[0]
            else:
                raise AnchorMissing('global %s not found' % name)
        return self.M.gptr(name)

    def gget(self, st, name, n=8, kind='p'):
        return self.M.load(st, self.glob(name), n, kind)

    def gset(self, st, name, n, v):
        self.M.store(st, self.glob(name), n, v)

    # ---- init
    def start(self, isa=0, setdp=(1 << 32) - 1, verbosity=0, listing=0, depth=8, section=True, pass_=0):
        key = (isa, setdp if type(setdp) is int else id(setdp), verbosity, listing, depth, section, pass_)
        c = _cache.get((id(self), key))
        if c is None:
            st = self.M.base.clone()
            g = self.glob('asm6809_options')
            self.put(st, g, isa, 'asm6809_options', 'isa')
            self.put(st, g, depth, 'asm6809_options', 'max_program_depth')
            self.put(st, g, setdp, 'asm6809_options', 'setdp')
            self.put(st, g, verbosity & 0xffffffff, 'asm6809_options', 'verbosity')
            self.put(st, g, listing, 'asm6809_options', 'listing_required')
            st = self.call(st, 'opcode_init')[0]
            st = self.call(st, 'assemble_init')[0]
            if section:
                st, p = self.cstr(st, 'CODE')
                st = self.call(st, 'section_set', p, pass_)[0]
            c = _cache[(id(self), key)] = st
        return c.clone()

    def call(self, st, name, *args):
        self.need(name)
        return self.M.call1(st, name, list(args))

    def cstr(self, st, s):
        st = st.clone()
        return st, self.M.cstr(st, s)

    # ---- node construction.  spec is a nested tuple:
    #  None | ('int', v) | ('float', v) | ('reg', id) | ('str', bytes) | ('empty',) | ('pc',) | ('back', v) | ('fwd', v)
    #  | ('interp', s) | ('id', [parts]) | ('text', [parts]) | ('op', code, a...) | ('arr', [elems]) | ('attr', spec, attr)
    def node(self, st, sp):
        if sp is None:
            return st, 0
        k = sp[0]
        E = self.d.enums
        if k == 'attr':
            st, n = self.node(st, sp[1])
            return self.call(st, 'node_set_attr', n, sp[2] & 0xffffffff)
        if k == 'int':
            v = sp[1]
            return self.call(st, 'node_new_int', v & ((1 << 64) - 1) if type(v) is int else v)
        if k == 'float':
            return self.call(st, 'node_new_float', sp[1])
        if k == 'reg':
            return self.call(st, 'node_new_reg', sp[1])
        if k == 'empty':
            return self.call(st, 'node_new_empty')
        if k == 'pc':
            return self.call(st, 'node_new_pc')
        if k == 'back':
            return self.call(st, 'node_new_backref', sp[1])
        if k == 'fwd':
            return self.call(st, 'node_new_fwdref', sp[1])
        if k in ('str', 'interp'):
            st, p = self.cstr(st, sp[1])
            return self.call(st, 'node_new_string' if k == 'str' else 'node_new_interp', p)
        if k in ('id', 'text'):
            l = 0
            for part in sp[1]:
                if isinstance(part, str):
                    part = ('str', part)
                st, n = self.node(st, part)
                st, l = self.call(st, 'slist_append', l, n)
            return self.call(st, 'node_new_id' if k == 'id' else 'node_new_text', l)
        if k == 'op':
            args = []
            for a in sp[2:]:
                st, n = self.node(st, a)
                args.append(n)
            return self.call(st, 'node_new_oper_%d' % len(args), sp[1], *args)
        if k == 'arr':
            if not sp[1]:
                return self.call(st, 'node_new_array')
            a = 0
            for e in sp[1]:
                st, n = self.node(st, e)
                st, a = self.call(st, 'node_array_push', a, n)
            return st, a
        raise ValueError(k)

    def line(self, st, label, op, args, text=None):
        """prog_line; label/args are node specs, op a mnemonic string, node spec or None; args list or None"""
        st, ln = self.node(st, label)
        if isinstance(op, str):
            op = ('id', [('str', op)])
        st, on = self.node(st, op)
        st, an = self.node(st, ('arr', args) if args is not None else None)
        st, l = self.call(st, 'prog_line_new', ln, on, an)
        st, t = self.cstr(st, text if text is not None else '')
        return self.call(st, 'prog_line_set_text', l, t)[0], l

    def prog(self, st, lines, name='in.s', type_=None):
        E = self.d.enums
        st, p = self.cstr(st, name)
        st, pr = self.call(st, 'prog_new', E['prog_type_file'] if type_ is None else type_, p)
        st, cx = self.call(st, 'prog_ctx_new', pr)
        for l in lines:
            st, lp = self.line(st, *l)
            st, _ = self.call(st, 'prog_ctx_add_line', cx, lp)
        st, _ = self.call(st, 'prog_ctx_free', cx)
        return st, pr

    def errlevel(self, st):
        return self.M.load(st, self.glob('error_level'), 4, 'i')

    # ---- results
    def slist(self, st, p):
        out = []
        while type(p) is Ptr:
            out.append(self.get(st, p, 'slist', 'data', kind='p'))
            p = self.get(st, p, 'slist', 'next', kind='p')
            if len(out) > 100000:
                raise Gap('list too long')
        return out

    def cur_section(self, st):
        return self.gget(st, 'cur_section')

    def spans(self, st, sect=None):
        """[(org, put, size, [bytes])] of a section"""
        sect = sect or self.cur_section(st)
        out = []
        for sp in self.slist(st, self.get(st, sect, 'section', 'spans', kind='p')):
            org = self.get(st, sp, 'section_span', 'org')
            put = self.get(st, sp, 'section_span', 'put')
            size = self.get(st, sp, 'section_span', 'size')
            data = self.get(st, sp, 'section_span', 'data', kind='p')
            bs = None
            if type(size) is int:
                bs = [self.M.load(st, Ptr(data.o, data.off + i), 1, 'i') for i in range(size)] if size else []
            out.append((org, put, size, bs))
        return out


def facts_text(st, n=6):
    out = []
    for f in st.facts():
        if f[0] == 'lin':
            out.append('%d <= %s <= %d' % (f[3], fmt_lf(f[1], f[2]), f[4]))
        elif f[0] == 'nlin':
            out.append('%s != %d' % (fmt_lf(f[1], f[2]), f[3]))
        elif f[0] == 'cond':
            out.append('%s=%s' % (f[1], f[2]))
    return out[-n:]
