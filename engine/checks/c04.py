"""Abstract interpretation of assemble_prog for every register operand combination: all ordered
register pairs (and abstract numbers in place of either) for transfers, exchanges and the 6309
inter-register operations, all register pairs and increment combinations for TFM, register lists
(every register alone, every ordered pair, and longer lists; thorough: every subset) for the stack
operations, and every register with abstract bit numbers and address for the bit operations.  The
emitted opcode and postbyte must equal the hardware encoding; unusable registers must be errors and a
size mismatch a warning.  The register name lookup is run for every name and instruction set."""
import embed
from common import *
import itertools
RULE = 'subject = (instruction set, mnemonic, register combination); obligation = (trace partition, value class)'


def wobs(ctx):
    lo = line_obs(ctx)
    E = ctx.d.enums

    def f(p):
        o = lo(p)
        if o['level'] is not None:
            o['warn'] = o['level'] >= E['error_type_illegal']
        return o
    return f


def pair(isa, m, a, b):
    modes = INSTR[isa][m]
    op = opbytes(modes['pair'])

    def go(ctx, rep):
        v, w = v64('v'), v64('w')
        args = []
        for x, val in ((a, v), (b, w)):
            args.append(('int', val) if x == 'num' else reg(x))
        cases = []

        def side(x, val):
            """[(name, guard, nibble or None, size or None, warn)]"""
            if x == 'num':
                o = [('1..15', [lin(val, 1, 15)], val, None, True), ('0', [lin(val, 0, 0)], 12 if isa else 0, None, not isa),
                     ('<0', [lin(val, MIN64, -1)], None, None, True), ('>15', [lin(val, 16, MAX64)], None, None, True)]
                return o
            if x in oracle.TFR:
                return [(x, [], oracle.TFR[x], oracle.SIZE[x], False)]
            return [(x, [], None, None, True)]
        for na, ga, xa, sa, wa in side(a, v):
            for nb, gb, xb, sb, wb in side(b, w):
                n = '%s,%s' % (na, nb)
                if xa is None or xb is None:
                    cases.append(Case(n, ga + gb, cls='err'))
                else:
                    mism = sa is not None and sb is not None and sa != sb
                    hi = mul(8, xa if type(xa) is int else byte(xa), 16)
                    cases.append(Case(n, ga + gb, cls='ok', bytes=op + [add(8, hi, xb if type(xb) is int else byte(xb))], warn=bool(mism or wa or wb)))
        ps = asm(ctx, [(None, m, args)], isa=isa)
        compare(ctx, rep, ps, cases, wobs(ctx), seed=ctx.seed)
    return go


def mul(w, x, k):
    return x * k % (1 << w) if type(x) is int else mk(w, x.c * k, {a: c * k for a, c in x.t})


TFM_ATTR = {('postinc', 'postinc'): 0, ('postdec', 'postdec'): 1, ('postinc', None): 2, (None, 'postinc'): 3}
TFM_REGS = ('D', 'X', 'Y', 'U', 'S')


def tfm(a, b, aa, ab):
    def go(ctx, rep):
        v = v64('v')
        args = []
        for x, t in ((a, aa), (b, ab)):
            n = ('int', v) if x == 'num' else reg(x)
            if t:
                n = attr(ctx, n, 'node_attr_' + t)
            args.append(n)
        mode = TFM_ATTR.get((aa, ab))
        good = mode is not None and all(x == 'num' or x in TFM_REGS for x in (a, b))
        if not good:
            cases = [Case('diagnosed', [], cls='err')]
        elif 'num' in (a, b):
            nib = byte(v)
            x = add(8, mul(8, nib if a == 'num' else oracle.TFR[a], 16), nib if b == 'num' else oracle.TFR[b])
            cases = [Case('0..4', [lin(v, 0, 4)], cls='ok', warn=True, bytes=[0x11, 0x38 + mode, x])] + [Case('out of range', g, cls='err') for g in outside(v, 0, 4)]
        else:
            cases = [Case('block', [], cls='ok', warn=False, bytes=[0x11, 0x38 + mode, oracle.TFR[a] * 16 + oracle.TFR[b]])]
        ps = asm(ctx, [(None, 'tfm', args)], isa=1)
        compare(ctx, rep, ps, cases, wobs(ctx), seed=ctx.seed)
    return go


def stack(isa, m, regs):
    modes = INSTR[isa][m]
    st = 'S' if 'stks' in modes else 'U'
    op = opbytes(modes.get('stks', modes.get('stku')))

    def go(ctx, rep):
        bits = 0
        bad = False
        for r in regs:
            b = oracle.STACKBIT.get(r)
            if r in ('U', 'S') and r != st:
                b = 0x40
            if b is None:
                bad = True
            else:
                bits |= b
        cases = [Case('diagnosed', [], cls='err')] if bad else [Case('list', [], cls='ok', warn=False, bytes=op + [bits])]
        ps = asm(ctx, [(None, m, [reg(r) for r in regs])], isa=isa)
        compare(ctx, rep, ps, cases, wobs(ctx), seed=ctx.seed)
    return go


def bitop(m, r, op):
    def go(ctx, rep):
        s, d, a = v64('src'), v64('dst'), v64('addr')
        v = v64('v')
        k = {'CC': 0, 'A': 1, 'B': 2}.get(r)
        arg = ('int', v) if r == 'num' else reg(r)
        if r == 'num':
            pb = add(8, mul(8, byte(v), 64), add(8, mul(8, byte(s), 8), byte(d)))
            cases = [Case('in range', [lin(s, 0, 7), lin(d, 0, 7), lin(v, 0, 3)], cls='ok', warn=True, bytes=op + [pb, byte(a)])]
            cases += [Case('register', g + [lin(s, 0, 7), lin(d, 0, 7)], cls='err') for g in outside(v, 0, 3)]
        elif k is None:
            cases = [Case('diagnosed', [], cls='err')]
        else:
            pb = add(8, k * 64, add(8, mul(8, byte(s), 8), byte(d)))
            cases = [Case('in range', [lin(s, 0, 7), lin(d, 0, 7)], cls='ok', warn=False, bytes=op + [pb, byte(a)])]
        if k is not None or r == 'num':
            cases += [Case('source bit', g, cls='err') for g in outside(s, 0, 7)]
            cases += [Case('destination bit', g + [lin(s, 0, 7)], cls='err') for g in outside(d, 0, 7)]
        ps = asm(ctx, [(None, m, [arg, ('int', s), ('int', d), ('int', a)])], isa=1)
        compare(ctx, rep, ps, cases, wobs(ctx), seed=ctx.seed)
    return go


def names(isa):
    want = oracle.REGS_6309 if isa else oracle.REGS_6809

    def go(ctx, rep):
        M = ctx.M
        E = ctx.d.enums
        for nm in oracle.REGS_6309 + ['Z', 'XY', 'AA', 'PCRX', 'R', '']:
            for sp in {nm.lower(), nm}:
                st = ctx.start(isa=isa)
                st, p = ctx.cstr(st, sp)
                for r in M.run(st, 'reg_name_to_id', [p]):
                    exp = oracle.REGS[nm] if nm in want else E['REG_INVALID']
                    if type(r.value) is int and (r.value - exp) % (1 << 32) == 0:
                        rep.ok()
                    elif type(r.value) is int:
                        rep.violation('reg_name_to_id', 'register name %r gives %r, expected %r' % (sp, r.value, exp))
                    else:
                        rep.gap('register id not constant')
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'reg_name_to_id')
    out = [('register names isa%d' % i, names(i)) for i in (0, 1)]
    full = tier == 'thorough'
    for isa in (0, 1):
        regs = oracle.REGS_6309 if isa else oracle.REGS_6809
        for m, d in INSTR[isa].items():
            if 'pair' in d:
                main = m in ('tfr', 'exg', 'addr') or full
                for a in regs + ['num']:
                    for b in regs + ['num']:
                        if main or a == b or b == 'D' or a == 'num':
                            out.append(('%s %s,%s isa%d' % (m, a, b, isa), pair(isa, m, a, b)))
            if 'stks' in d or 'stku' in d:
                lists = [()] if False else []
                lists += [(r,) for r in regs]
                lists += list(itertools.permutations([r for r in regs if r in oracle.STACKBIT or r in 'US'], 2))
                ok = [r for r in ('CC', 'A', 'B', 'DP', 'X', 'Y', 'U' if 'stks' in d else 'S', 'PC')]
                lists += [tuple(ok), tuple(reversed(ok)), ('D',) + tuple(ok[3:]), ('A', 'A'), ('D', 'B', 'A')]
                lists += [tuple(ok[:i] + [('S' if 'stks' in d else 'U')] + ok[i:]) for i in range(0, len(ok), 3)]
                sub = itertools.chain.from_iterable(itertools.combinations(ok, k) for k in (range(3, 8) if full else (3, 7)))
                lists += list(sub)
                for l in dict.fromkeys(lists):
                    out.append(('%s %s isa%d' % (m, ','.join(l), isa), stack(isa, m, l)))
            if 'bit' in d:
                for r in regs + ['num']:
                    out.append(('%s %s' % (m, r), bitop(m, r, opbytes(d['bit']))))
    at = (None, 'postinc', 'postdec', 'postinc2', 'predec', 'predec2')
    for aa in at:
        for ab in at:
            for a in oracle.REGS_6309 + ['num']:
                for b in oracle.REGS_6309 + ['num']:
                    if a == b == 'num':
                        continue
                    if not full and a not in TFM_REGS and b not in TFM_REGS and a != b:
                        continue
                    if not full and (aa, ab) not in TFM_ATTR and a != 'X' and b != 'Y':
                        continue
                    out.append(('tfm %s %s,%s %s' % (a, aa or '', b, ab or ''), tfm(a, b, aa, ab)))
    out += embed.subjects('C04', tier)
    return out
