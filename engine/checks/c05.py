"""Abstract interpretation of assemble_prog for every instruction with an immediate, direct or
extended form.  Immediate operands: abstract integers, abstract floating point, strings.  Addresses:
abstract value with each size prefix and abstract direct page (undefined, declared on the command
line, declared by SETDP with any value): direct addressing exactly on the partitions whose page equals
the declared page (or when forced), and exactly the low operand bytes of the value emitted."""
import embed
from common import *
from c10 import run_passes
from outfmt import check_format, B
RULE = 'subject = (instruction set, mnemonic, operand kind, prefix, direct page); obligation = (trace partition, page relation)'
UNDEF_DP = (1 << 32) - 1
DPOPT = inp('dpopt', 32, 0, 255)


def sub(a, b):
    t = dict(a[1])
    for x, k in b[1]:
        t[x] = t.get(x, 0) - k
    return (a[0] - b[0], tuple(sorted(((x, k) for x, k in t.items() if k), key=lambda z: z[0].id)))


def page(v):
    return mkD(8, 16, v.c, dict(v.t))


def address(isa, m, pre, dpkind, via):
    d = INSTR[isa][m]
    memf = 'immdir' in d or 'immext' in d
    dk, ek = ('immdir', 'immext') if memf else ('dir', 'ext')

    def go(ctx, rep):
        v = v64('addr')
        dp = v64('dp', 0, 255)
        lead = [(None, 'setdp', [('int', dp)])]
        setdp = UNDEF_DP
        guard0 = []
        if dpkind == 'option':
            lead = []
            setdp = DPOPT
            dp = mk(64, setdp.c, dict(setdp.t))
        elif dpkind == 'none':
            lead = []
        elif dpkind == 'setdp any':
            dp = v64('dp')
            lead = [(None, 'setdp', [('int', dp)])]
        elif dpkind == 'withdrawn':
            neg = v64('neg', MIN64, -1)
            lead.append((None, 'setdp', [('int', neg)]))
        a = ('int', v)
        if via == 'symbol':
            lead = [(('id', ['mem']), 'equ', [a])] + lead
            a = ('id', ['mem'])
        if pre:
            a = attr(ctx, a, 'node_attr_' + pre)
        k = v64('mask')
        im = [imm(ctx, ('int', k))] if memf else []
        ib = [byte(k)] if memf else []
        D = Case('direct', [], cls='ok', bytes=opbytes(d[dk]) + ib + [byte(v)]) if dk in d else None
        X = Case('extended', [], cls='ok', bytes=opbytes(d[ek]) + ib + be(v, 2))
        if pre == '8bit':
            cases = [D] if D else [Case('no direct form', [], cls='err')]
        elif pre == '5bit':
            cases = [Case('5 bit', [], cls='err')]
        elif pre == '16bit' or dpkind in ('none', 'withdrawn') or D is None:
            cases = [X]
        else:
            if dpkind == 'setdp any':
                p = umod(8, lform(0, (dp, 1)))
                df = sub(page(v), p)
                nn = [lin(dp, 0, MAX64)]
                cases = [Case('no page', [lin(dp, MIN64, -1)], **X.want)]
            else:
                df = sub(page(v), (dp.c, dp.t))
                nn = []
                cases = []
            cases += [Case('in page', nn + [lin(df, 0, 0)], **D.want), Case('below page', nn + [lin(df, -255, -1)], **X.want), Case('above page', nn + [lin(df, 1, 255)], **X.want)]
        ps = asm(ctx, lead + [(None, m, im + [a])], isa=isa, setdp=setdp)
        compare(ctx, rep, ps, cases, line_obs(ctx), seed=ctx.seed)
    return go


def immediate(isa, m, kind):
    d = INSTR[isa][m]

    def go(ctx, rep):
        n = {'imm8': 1, 'imm16': 2, 'imm32': 4}
        k = [x for x in n if x in d][0]
        op = opbytes(d[k])
        v = v64('v')
        lead = []
        if kind == 'int':
            a, want = ('int', v), be(v, n[k])
        elif kind == 'symbol':
            lead = [(('id', ['val']), 'equ', [('int', v)])]
            a, want = ('id', ['val']), be(v, n[k])
        elif kind == 'pc':
            loc = v64('location', 0, 0xfff0)
            lead = [(None, 'org', [('int', loc)])]
            a, want = ('pc',), [byte(loc, 8 * i) for i in reversed(range(n[k]))]
        elif kind == 'string':
            a, want = ('str', 'Ab!x'), list(b'Ab!x')[-n[k]:]
        elif kind == 'char':
            a, want = ('str', 'Z'), [0] * (n[k] - 1) + [0x5a]
        elif kind == 'negative float':
            a, want = ('float', -2.75), [255] * (n[k] - 1) + [254]
        elif kind == 'float':
            a, want = ('float', 19088743.9), [0x01, 0x23, 0x45, 0x67][-n[k]:]
        ps = asm(ctx, lead + [(None, m, [imm(ctx, a)])], isa=isa)
        compare(ctx, rep, ps, [Case('immediate %s' % kind, [], cls='ok', bytes=op + want)], line_obs(ctx), seed=ctx.seed)
    return go


def masked(m, kind):
    """immediate operand of an instruction whose second operand is in memory, in each addressing mode"""
    d = INSTR[1][m]

    def go(ctx, rep):
        v = v64('v')
        a, want = {'int': (('int', v), byte(v)), 'symbol': (('id', ['val']), byte(v)), 'char': (('str', 'Z'), 0x5a), 'negative float': (('float', -2.75), 254)}[kind]
        lead = [(('id', ['val']), 'equ', [('int', v)])] if kind == 'symbol' else []
        for mode, mem, rest in (('immdir', [a8(ctx, ('int', 0x34))], [0x34]), ('immext', [('int', 0x1234)], [0x12, 0x34]), ('immidx', [('empty',), reg('X')], [0x84])):
            ps = asm(ctx, lead + [(None, m, [imm(ctx, a)] + mem)], isa=1)
            compare(ctx, rep, ps, [Case('%s %s' % (mode, kind), [], cls='ok', bytes=opbytes(d[mode]) + [want] + rest)], line_obs(ctx), seed=ctx.seed)
    return go


def progressive(how):
    """the declared page is that of the SETDP lines before the instruction, in the final pass as in any other"""
    def go(ctx, rep):
        v = v64('addr', 0x1200, 0x12ff)
        ext, dr = [0xb6] + be(v, 2), [0x96, byte(v)]
        use = (None, 'lda', [('int', v)])
        setdp = lambda x: (None, 'setdp', [('int', x)])
        prog, want, opts = {
            'declared later': ([use, setdp(0x12), use], ext + dr, []),
            'declared otherwise later': ([setdp(0x13), use, setdp(0x12), use], ext + dr, []),
            'withdrawn later': ([setdp(0x12), use, setdp(MIN64 & ((1 << 64) - 1)), use], dr + ext, []),
            'option, withdrawn later': ([use, setdp((1 << 64) - 1), use], dr + ext, ['--setdp', '18'])}[how]
        ps = run_passes(ctx, [prog], opts=['-B', '-o', 'out'] + opts)
        check_format(ctx, rep, ps, [([], B(want))], 'direct page %s' % how)
    return go


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'main')
    out = []
    for how in ('declared later', 'declared otherwise later', 'withdrawn later', 'option, withdrawn later'):
        out.append(('direct page in two passes: %s' % how, progressive(how)))
    for m, d in INSTR[1].items():
        if 'immidx' in d:
            for kind in ('int', 'symbol', 'char', 'negative float'):
                out.append(('%s #%s, memory' % (m, kind), masked(m, kind)))
    full = tier == 'thorough'
    rep9 = ('lda', 'sty', 'jsr', 'clr', 'jmp', 'neg', 'cmps')
    for isa in (0, 1):
        for m, d in INSTR[isa].items():
            if any(k in d for k in ('imm8', 'imm16', 'imm32')):
                for kind in ('int', 'symbol', 'pc', 'string', 'char', 'float', 'negative float'):
                    out.append(('%s #%s isa%d' % (m, kind, isa), immediate(isa, m, kind)))
            if 'ext' in d or 'immext' in d:
                for pre in (None, '5bit', '8bit', '16bit'):
                    for dk in ('none', 'setdp', 'option', 'setdp any', 'withdrawn'):
                        for via in ('value', 'symbol'):
                            if not full and via == 'symbol' and m not in rep9:
                                continue
                            if not full and dk == 'setdp any' and m not in rep9:
                                continue
                            out.append(('%s %s %s dp=%s isa%d' % (m, via, pre, dk, isa), address(isa, m, pre, dk, via)))
    out += embed.subjects('C05', tier)
    return out
