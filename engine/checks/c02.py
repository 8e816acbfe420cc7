"""Abstract interpretation of assemble_prog for every indexed operand shape: base register x
increment form x offset kind (absent, accumulator, number with each size prefix) x indirection x
instruction set, for a 1-byte, a 2-byte and (6309) an immediate-prefixed opcode.  The offset value
and the location counter are abstract, so each trace partition stands for a set of offsets; its
emitted postbyte and offset must be, in normal form, those of the smallest form able to hold
every offset of the partition (from the 6809/6309 postbyte tables), or the line must be an error."""
import embed
from common import *
RULE = 'subject = (instruction, base, increment, offset kind, prefix, indirection); obligation = (trace partition, offset class)'

RR = dict(X=0, Y=0x20, U=0x40, S=0x60)
ACC = dict(A=0x86, B=0x85, D=0x8b, E=0x87, F=0x8a, W=0x8e)
INC = {'postinc': (0x80, False), 'postinc2': (0x81, True), 'predec': (0x82, False), 'predec2': (0x83, True)}


def W16(x):
    """low 16 bits of a form, as bytes"""
    return be(x, 2)


def expect(base, inc, off, pre, ind, v, pcr_at):
    """cases: list of Case(bytes of postbyte+offset or error)"""
    I = 0x10 if ind else 0

    def ok(n, g, b, warn=False):
        return [Case(n, g, tail=b, cls='ok', warn=ANY if not warn else True)]

    err = [Case('diagnosed', [], cls='err')]
    num = off == 'num'
    if base in RR:
        rr = RR[base]
        if inc in INC:
            pb, indok = INC[inc]
            good = off == 'none'
            z = []
            if num and pre is None and inc.startswith('postinc'):
                # a written 0 is the same as no offset
                z = [Case('zero offset', [lin(v, 0, 0)], tail=[pb | rr | I], cls='ok', warn=True if ind and not indok else ANY)]
                return z + [Case('diagnosed', g, cls='err') for g in outside(v, 0, 0)]
            if num and pre is None:
                z = [Case('zero offset', [lin(v, 0, 0)], cls=ANY)]
                return z + [Case('diagnosed', g, cls='err') for g in outside(v, 0, 0)]
            if not good:
                return err
            return ok('increment', [], [pb | rr | I], warn=ind and not indok)
        if inc is not None:
            return err
        if off == 'none':
            return ok('no offset', [], [0x84 | rr | I])
        if off in ACC:
            return ok('accumulator', [], [ACC[off] | rr | I])
        if off != 'num':
            return err
        five = lambda: add(8, rr, from_u5(v))
        if pre == '5bit':
            return err if ind else ok('forced 5', [], [five()])
        if pre == '8bit':
            return ok('forced 8', [], [0x88 | rr | I, byte(v)])
        if pre == '16bit':
            return ok('forced 16', [], [0x89 | rr | I] + W16(v))
        out = ok('zero', [lin(v, 0, 0)], [0x84 | rr | I])
        if not ind:
            out += ok('5 bit low', [lin(v, -16, -1)], [five()])
            out += ok('5 bit high', [lin(v, 1, 15)], [five()])
            out += ok('8 bit low', [lin(v, -128, -17)], [0x88 | rr, byte(v)])
            out += ok('8 bit high', [lin(v, 16, 127)], [0x88 | rr, byte(v)])
        else:
            out += ok('8 bit low', [lin(v, -128, -1)], [0x98 | rr, byte(v)])
            out += ok('8 bit high', [lin(v, 1, 127)], [0x98 | rr, byte(v)])
        out += ok('16 bit low', [lin(v, MIN64, -129)], [0x89 | rr | I] + W16(v))
        out += ok('16 bit high', [lin(v, 128, MAX64)], [0x89 | rr | I] + W16(v))
        return out
    if base in ('PC', 'PCR'):
        if inc is not None or off in ACC:
            return err
        if off == 'none':
            return [Case('unspecified', [], cls=ANY)]
        if off != 'num':
            return err
        if pre == '5bit':
            return err
        if base == 'PC':
            if pre == '8bit':
                return ok('forced 8', [], [0x8c | I, byte(v)])
            if pre == '16bit':
                return ok('forced 16', [], [0x8d | I] + W16(v))
            return ok('8 bit', [lin(v, -128, 127)], [0x8c | I, byte(v)]) + ok('16 bit low', [lin(v, MIN64, -129)], [0x8d | I] + W16(v)) \
                + ok('16 bit high', [lin(v, 128, MAX64)], [0x8d | I] + W16(v))
        d8 = lform(-2, (v, 1), (pcr_at, -1))
        d16 = lform(-3, (v, 1), (pcr_at, -1))
        if pre == '8bit':
            return ok('forced 8', [], [0x8c | I, byte(d8)])
        if pre == '16bit':
            return ok('forced 16', [], [0x8d | I] + W16(d16))
        s = smod(16, d8)
        return ok('relative 8', [lin(s, -128, 127)], [0x8c | I, byte(d8)]) + ok('relative 16 low', [lin(s, -32768, -129)], [0x8d | I] + W16(d16)) \
            + ok('relative 16 high', [lin(s, 128, 32767)], [0x8d | I] + W16(d16))
    if base == 'W':
        i = 1 if ind else 0
        if inc == 'postinc2' or inc == 'predec2':
            if num and pre is None:
                return [Case('unspecified', [lin(v, 0, 0)], cls=ANY)] + [Case('diagnosed', g, cls='err') for g in outside(v, 0, 0)]
            return ok('W increment', [], [(0xcf if inc == 'postinc2' else 0xef) + i]) if off == 'none' else err
        if inc is not None:
            return err
        if off == 'none':
            return ok('no offset', [], [0x8f + i])
        if off != 'num' or pre in ('5bit', '8bit'):
            return err
        full = [0xaf + i] + W16(v)
        if pre == '16bit':
            return ok('forced 16', [], full)
        return ok('zero', [lin(v, 0, 0)], [0x8f + i]) + ok('16 bit low', [lin(v, MIN64, -1)], full) + ok('16 bit high', [lin(v, 1, MAX64)], full)
    return err


def from_u5(v):
    return from_lf(8, umod(5, lform(0, (v, 1))))


def obs(ctx, oplen, op):
    E = ctx.d.enums
    lo = line_obs(ctx)

    def f(p):
        o = lo(p)
        if o['cls'] == 'exit':
            return o
        lv = o['level']
        o['warn'] = lv >= E['error_type_illegal']
        b = o['bytes']
        if o['cls'] == 'ok':
            o['head_ok'] = b is not None and b[:oplen] == op
            o['tail'] = b[oplen:]
            if not o['head_ok']:
                o['tail'] = b
        else:
            o['tail'] = b
        return o
    return f


def one(isa, m, op, imms, base, inc, off, pre, ind):
    def go(ctx, rep):
        v = v64('offset')
        loc = v64('location', 0, 0xfff0)
        if off == 'none':
            a0 = ('empty',)
        elif off == 'num':
            a0 = ('int', v)
        else:
            a0 = reg(off)
        if pre:
            a0 = attr(ctx, a0, 'node_attr_' + pre)
        a1 = reg(base)
        if inc:
            a1 = attr(ctx, a1, 'node_attr_' + inc)
        args = [a0, a1]
        if ind:
            args = [('arr', args)]
        args = [imm(ctx, ('int', x)) for x in imms] + args
        head = op + imms
        cases = expect(base, inc, off, pre, ind, v, add(64, loc, len(head)) if True else 0)
        ps = asm(ctx, [(None, 'org', [('int', loc)]), (None, m, args)], isa=isa)
        compare(ctx, rep, ps, cases, obs(ctx, len(head), head), seed=ctx.seed)
    return go


def ext_indirect(isa, m, op, pre):
    def go(ctx, rep):
        v = v64('address')
        a = ('int', v)
        if pre:
            a = attr(ctx, a, 'node_attr_' + pre)
        if pre in ('8bit', '5bit', 'immediate'):
            cases = [Case('diagnosed', [], cls='err')]
        else:
            cases = [Case('extended indirect', [], tail=[0x9f] + be(v, 2), cls='ok')]
        ps = asm(ctx, [(None, m, [('arr', [a])])], isa=isa)
        compare(ctx, rep, ps, cases, obs(ctx, len(op), op), seed=ctx.seed)
    return go


def bad(isa, m, args, name):
    def go(ctx, rep):
        ps = asm(ctx, [(None, m, args(ctx))], isa=isa)
        compare(ctx, rep, ps, [Case(name, [], cls='err')], line_obs(ctx), seed=ctx.seed)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog')
    out = []
    ins = [('lda', 'lda', [])] + [('ldy', 'ldy', [])]
    for isa in (0, 1):
        insl = ins + ([('leax', 'leax', [])] if tier == 'thorough' else []) + ([('aim', 'aim', [0x5a])] if isa else [])
        if tier == 'thorough':
            insl += [('jsr', 'jsr', []), ('cmps', 'cmps', []), ('neg', 'neg', [])]
        for m, _, imms in insl:
            d = INSTR[isa][m]
            op = opbytes(d['immidx'] if imms else d['idx'])
            bases = oracle.REGS_6309 if isa else oracle.REGS_6809
            for base in bases:
                for inc in (None, 'postinc', 'postinc2', 'predec', 'predec2', 'postdec'):
                    if inc and base not in ('X', 'Y', 'U', 'S', 'W', 'PC', 'PCR'):
                        continue
                    offs = ['none', 'num'] + (['A', 'B', 'D'] + (['E', 'F', 'W'] if isa else []) + (['X', 'CC', 'PC', 'DP'] if inc is None else []))
                    for off in offs:
                        pres = (None, '5bit', '8bit', '16bit') if off == 'num' else (None,)
                        for pre in pres:
                            for ind in (False, True):
                                n = '%s%s %s%s%s,%s%s%s isa%d' % (m, ' #n,' if imms else '', '[' if ind else '', {None: '', '5bit': '<<', '8bit': '<', '16bit': '>'}[pre], off, base,
                                                                   '' if not inc else ' ' + inc, ']' if ind else '', isa)
                                out.append((n, one(isa, m, op, imms, base, inc, off, pre, ind)))
            if not imms:
                for pre in (None, '5bit', '8bit', '16bit', 'immediate'):
                    out.append(('%s [%s address] isa%d' % (m, pre, isa), ext_indirect(isa, m, op, pre)))
                i1 = ('int', 5)
                for name, args in (('three operands', lambda c: [i1, reg('X'), reg('Y')]), ('three operands in []', lambda c: [('arr', [i1, reg('X'), reg('Y')])]),
                                   ('empty []', lambda c: [('arr', [('empty',)])]), ('text base', lambda c: [i1, ('str', 'x')]), ('number as base', lambda c: [i1, i1]),
                                   ('list as offset', lambda c: [('arr', [i1]), reg('X')]), 
                                   ('immediate offset', lambda c: [imm(c, i1), reg('X')]), ('[[n]]', lambda c: [('arr', [('arr', [i1])])])):
                    out.append(('%s %s isa%d' % (m, name, isa), bad(isa, m, args, name)))
    out += embed.subjects('C02', tier)
    return out
