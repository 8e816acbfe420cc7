"""Abstract interpretation of assemble_prog over the IR for every (instruction set, mnemonic, operand
form); operand values are abstract (all 64-bit values at once).  The bytes appended to the section
must be, in normal form, the opcode of the 6809/6309 oracle followed by the operand bytes; forms the
mnemonic lacks, foreign and unknown mnemonics must raise the error level to an error.  The opcode
tables in the program image are additionally scanned for mnemonics the oracle does not know."""
import embed
from common import *
import ir as IR
RULE = 'subject = (instruction set, mnemonic); obligation = (operand form, trace partition)'


def forms(ctx):
    """name -> (args, mode, operand bytes, guard)"""
    v = v64('v')
    w = v64('w')
    i, r = (lambda x: ('int', x)), reg
    y = REGS
    F_ = []
    F_.append(('none', None, 'inh', [], []))
    F_.append(('#v', [imm(ctx, i(v))], 'imm', None, []))
    F_.append(('<v', [a8(ctx, i(v))], 'dir', [byte(v)], []))
    F_.append(('>v', [a16(ctx, i(v))], 'ext', be(v, 2), []))
    F_.append((',x', [('empty',), r('X')], 'idx', [0x84], []))
    F_.append(('target', [i(v)], 'rel', None, []))
    F_.append(('a,b', [r('A'), r('B')], 'regs', None, []))
    F_.append(('#v,<w', [imm(ctx, i(v)), a8(ctx, i(w))], 'immdir', [byte(v), byte(w)], []))
    F_.append(('#v,>w', [imm(ctx, i(v)), a16(ctx, i(w))], 'immext', [byte(v)] + be(w, 2), []))
    F_.append(('#v,,x', [imm(ctx, i(v)), ('empty',), r('X')], 'immidx', [byte(v), 0x84], []))
    F_.append(('a,3,5,<v', [r('A'), i(3), i(5), a8(ctx, i(v))], 'bit', [0x5d, byte(v)], []))
    F_.append(('x+,y+', [attr(ctx, r('X'), 'node_attr_postinc'), attr(ctx, r('Y'), 'node_attr_postinc')], 'tfm', [0x12], []))
    return F_, v, w


def one(isa, m):
    modes = INSTR[isa].get(m, {})

    def go(ctx, rep):
        fs, v, w = forms(ctx)
        for name, args, mode, opb, guard in fs:
            rep.cur = '%s %s (%s)' % (m, name, 'HD6309' if isa else 'MC6809')
            cases = None
            if mode == 'inh':
                if 'inh' in modes:
                    cases = [Case('inherent', [], bytes=opbytes(modes['inh']), cls='ok')]
                elif 'stks' in modes or 'stku' in modes:
                    continue
            elif mode == 'imm':
                for k, n in (('imm8', 1), ('imm16', 2), ('imm32', 4)):
                    if k in modes:
                        cases = [Case('immediate', [], bytes=opbytes(modes[k]) + be(v, n), cls='ok')]
            elif mode in ('dir', 'ext', 'immdir', 'immext'):
                if 'rel8' in modes or 'rel16' in modes or 'pair' in modes or 'tfm' in modes:
                    continue
                if mode in modes:
                    cases = [Case(mode, [], bytes=opbytes(modes[mode]) + opb, cls='ok')]
                elif mode == 'ext' and 'idx' in modes:
                    # an indexed-only instruction takes a plain address in its (non-indirect) extended indexed form, with a warning
                    cases = [Case('address as indexed', [], bytes=opbytes(modes['idx']) + [0x8f] + be(v, 2), cls='ok')]
            elif mode in ('idx', 'immidx'):
                if mode in modes:
                    cases = [Case(mode, [], bytes=opbytes(modes[mode]) + opb, cls='ok')]
                elif mode == 'idx' and 'immdir' in modes:
                    continue        # parsed as an empty immediate; see C08
            elif mode == 'rel':
                if 'rel8' in modes:
                    op = opbytes(modes['rel8'])
                    off = lform(-len(op) - 1, (v, 1))
                    cases = [Case('in range', [lin(smod(16, off), -128, 127)], bytes=op + [byte(off)], cls='ok'),
                             Case('too low', [lin(smod(16, off), -32768, -129)], cls='err'),
                             Case('too high', [lin(smod(16, off), 128, 32767)], cls='err')]
                elif 'rel16' in modes:
                    op = opbytes(modes['rel16'])
                    off = lform(-len(op) - 2, (v, 1))
                    cases = [Case('long', [], bytes=op + be(off, 2), cls='ok')]
                elif 'ext' in modes:
                    cases = [Case('extended', [], bytes=opbytes(modes['ext']) + be(v, 2), cls='ok')]
                elif 'idx' in modes:
                    cases = [Case('address as indexed', [], bytes=opbytes(modes['idx']) + [0x8f] + be(v, 2), cls='ok')]
                elif 'stks' in modes or 'stku' in modes or 'immdir' in modes:
                    pass
            elif mode == 'regs':
                if 'pair' in modes:
                    cases = [Case('pair', [], bytes=opbytes(modes['pair']) + [0x89], cls='ok')]
                elif 'stks' in modes or 'stku' in modes:
                    cases = [Case('stack', [], bytes=opbytes(modes.get('stks', modes.get('stku'))) + [0x06], cls='ok')]
            elif mode == 'bit':
                if 'bit' in modes:
                    cases = [Case('bit', [], bytes=opbytes(modes['bit']) + opb, cls='ok')]
            elif mode == 'tfm':
                if 'tfm' in modes:
                    cases = [Case('block', [], bytes=opbytes(modes['tfm']) + opb, cls='ok')]
                elif 'pair' in modes:
                    continue
                elif 'stks' in modes or 'stku' in modes:
                    continue
            if cases is None:
                cases = [Case('unsupported', [], cls='err')]
            ps = asm(ctx, [(None, m, args)], isa=isa)
            compare(ctx, rep, ps, cases, line_obs(ctx), seed=ctx.seed)
        # spelling in capitals
        rep.cur = '%s in capitals (%s)' % (m, 'HD6309' if isa else 'MC6809')
        if 'inh' in modes:
            compare(ctx, rep, asm(ctx, [(None, m.upper(), None)], isa=isa), [Case('capitals', [], bytes=opbytes(modes['inh']), cls='ok')], line_obs(ctx))
    return go


def tables(ctx, rep):
    """mnemonics present in the program image"""
    M = ctx.M
    found = 0
    for g, (t, val, const) in ctx.m.globals.items():
        e = t
        while isinstance(e, IR.TArr):
            e = e.e
        if not (hasattr(e, 'name') and e.name and e.name.split('.')[-1] == 'opcode') or val is None:
            continue
        sz = IR.size_of(e)
        n = IR.size_of(t) // sz
        off, _ = ctx.field('opcode', 'op')
        st = M.base.clone()
        for i in range(n):
            p = M.load(st, __import__('vals').Ptr(M.gobj[g], i * sz + off), 8, 'p')
            if type(p) is int:
                continue
            import natives
            nm = natives.pystr(M, st, p).lower()
            if isinstance(nm, bytes):
                nm = nm.decode()
            found += 1
            if nm in INSTR[1]:
                rep.ok()
            else:
                rep.violation('table %s entry %d' % (g, i), 'mnemonic %r is in no 6809/6309 instruction set' % nm)
    if not found:
        rep.gap('no opcode table recognised')
    rep.note('table entries', found)


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'opcode_init')
    out = [('opcode tables', tables)]
    for isa in (0, 1):
        for m in INSTR[1]:
            out.append(('%s isa%d' % (m, isa), one(isa, m)))
    for isa in (0, 1):
        for m in ('ldz', 'abcdefgh', 'q', 'lda1', 'nop2'):
            out.append(('unknown %s isa%d' % (m, isa), one(isa, m)))
    out += embed.subjects('C01', tier)
    return out
