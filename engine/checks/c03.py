"""Abstract interpretation of assemble_prog for every branch mnemonic of both instruction sets with
abstract target (any 64-bit value) and abstract location counter (any value in memory), under
every operand prefix and also with the target held in a symbol: the emitted offset must equal
target - (address after the instruction) in normal form, and a short branch must be an error on
exactly the partitions whose 16-bit distance is outside -128..127."""
import embed
from common import *
RULE = 'subject = (instruction set, branch mnemonic, operand form); obligation = (trace partition, distance class)'


def one(isa, m, form):
    modes = INSTR[isa][m]

    def go(ctx, rep):
        t = v64('target')
        loc = v64('location', 0, 0xfff0)
        op = opbytes(modes.get('rel8', modes.get('rel16')))
        short = 'rel8' in modes
        ln = len(op) + (1 if short else 2)
        pre = [(None, 'org', [('int', loc)])]
        a = ('int', t)
        if form == 'symbol':
            pre = [(('id', ['there']), 'equ', [('int', t)])] + pre
            a = ('id', ['there'])
        elif form == 'label':
            # the target is a label elsewhere in memory
            t = v64('there', 0, 0xfff0)
            pre = [(None, 'org', [('int', t)]), (('id', ['there']), None, None)] + pre
            a = ('id', ['there'])
        elif form == 'pc-relative':
            # * + k
            k = t
            E = ctx.d.enums
            a = ('op', ord('+'), ('pc',), ('int', k))
            d = lform(-ln, (k, 1))
        elif form == 'backward':
            pre = pre + [(('id', ['loop']), 'nop', None), (None, 'nop', None)]
            a = ('id', ['loop'])
        elif form.startswith('attr '):
            a = attr(ctx, a, form[5:])
        if form == 'backward':
            want = [0x12, 0x12] + op + be((-2 - ln) & 0xffff, 1 if short else 2)
            cases = [Case('backward', [], bytes=want, cls='ok')]
        else:
            if form != 'pc-relative':
                d = lform(-ln, (t, 1), (loc, -1))
            if form == 'attr node_attr_immediate':
                cases = [Case('immediate', [], cls='err')]
            elif short:
                s = smod(16, d)
                cases = [Case('in range', [lin(s, -128, 127)], bytes=op + [byte(d)], org=('w', 32, loc), cls='ok'),
                         Case('too far back', [lin(s, -32768, -129)], cls='err'),
                         Case('too far forward', [lin(s, 128, 32767)], cls='err')]
            else:
                cases = [Case('long', [], bytes=op + be(d, 2), cls='ok')]
        ps = asm(ctx, pre + [(None, m, [a])], isa=isa)
        compare(ctx, rep, ps, cases, line_obs(ctx), seed=ctx.seed)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog')
    out = []
    for isa in (0, 1):
        for m, modes in INSTR[isa].items():
            if 'rel8' not in modes and 'rel16' not in modes:
                continue
            for form in ('int', 'symbol', 'label', 'pc-relative', 'backward', 'attr node_attr_8bit', 'attr node_attr_16bit', 'attr node_attr_immediate'):
                out.append(('%s %s isa%d' % (m, form, isa), one(isa, m, form)))
    out += embed.subjects('C03', tier)
    return out
