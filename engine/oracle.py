"""Instruction set oracle, written from the 6809/6309 programming tables (not from the source).

INSTR[isa][mnemonic] = {mode: opcode}; modes: inh imm8 imm16 imm32 dir idx ext rel8 rel16 pair stks stku
immdir immidx immext (6309 AIM family) bit (register-bit) tfm (4 opcodes from base)"""


def _tables():
    t9, t3 = {}, {}

    def put(t, m, mode, op):
        t.setdefault(m, {})[mode] = op

    def rmw(t, m, lo, dirs=True):
        if dirs:
            put(t, m, 'dir', lo)
            put(t, m, 'idx', 0x60 + lo)
            put(t, m, 'ext', 0x70 + lo)

    # read-modify-write group
    for m, lo in (('neg', 0), ('com', 3), ('lsr', 4), ('ror', 6), ('asr', 7), ('asl', 8), ('lsl', 8), ('rol', 9), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15)):
        rmw(t9, m, lo)
        put(t9, m + 'a', 'inh', 0x40 + lo)
        put(t9, m + 'b', 'inh', 0x50 + lo)
    rmw(t9, 'jmp', 14)
    # accumulator group
    for m, lo in (('sub', 0), ('cmp', 1), ('sbc', 2), ('and', 4), ('bit', 5), ('ld', 6), ('eor', 8), ('adc', 9), ('or', 10), ('add', 11)):
        for r, b in (('a', 0x80), ('b', 0xc0)):
            put(t9, m + r, 'imm8', b + lo)
            put(t9, m + r, 'dir', b + 0x10 + lo)
            put(t9, m + r, 'idx', b + 0x20 + lo)
            put(t9, m + r, 'ext', b + 0x30 + lo)

    def mem(t, m, imm, base, size=None):
        """base: opcode of the immediate column"""
        if size:
            put(t, m, size, imm if imm is not None else base)
        put(t, m, 'dir', base + 0x10)
        put(t, m, 'idx', base + 0x20)
        put(t, m, 'ext', base + 0x30)

    mem(t9, 'sta', None, 0x87)
    mem(t9, 'stb', None, 0xc7)
    mem(t9, 'subd', None, 0x83, 'imm16')
    mem(t9, 'addd', None, 0xc3, 'imm16')
    mem(t9, 'cmpx', None, 0x8c, 'imm16')
    mem(t9, 'ldx', None, 0x8e, 'imm16')
    mem(t9, 'ldd', None, 0xcc, 'imm16')
    mem(t9, 'ldu', None, 0xce, 'imm16')
    mem(t9, 'std', None, 0xcd)
    mem(t9, 'stx', None, 0x8f)
    mem(t9, 'stu', None, 0xcf)
    mem(t9, 'jsr', None, 0x8d)
    mem(t9, 'cmpd', None, 0x1083, 'imm16')
    mem(t9, 'cmpy', None, 0x108c, 'imm16')
    mem(t9, 'ldy', None, 0x108e, 'imm16')
    mem(t9, 'sty', None, 0x108f)
    mem(t9, 'lds', None, 0x10ce, 'imm16')
    mem(t9, 'sts', None, 0x10cf)
    mem(t9, 'cmpu', None, 0x1183, 'imm16')
    mem(t9, 'cmps', None, 0x118c, 'imm16')
    for m, op in (('nop', 0x12), ('sync', 0x13), ('daa', 0x19), ('sex', 0x1d), ('rts', 0x39), ('abx', 0x3a), ('rti', 0x3b), ('mul', 0x3d),
                  ('swi', 0x3f), ('swi2', 0x103f), ('swi3', 0x113f)):
        put(t9, m, 'inh', op)
    for m, op in (('orcc', 0x1a), ('andcc', 0x1c), ('cwai', 0x3c)):
        put(t9, m, 'imm8', op)
    for r, op in (('x', 0x30), ('y', 0x31), ('s', 0x32), ('u', 0x33)):
        put(t9, 'lea' + r, 'idx', op)
    put(t9, 'pshs', 'stks', 0x34)
    put(t9, 'puls', 'stks', 0x35)
    put(t9, 'pshu', 'stku', 0x36)
    put(t9, 'pulu', 'stku', 0x37)
    put(t9, 'exg', 'pair', 0x1e)
    put(t9, 'tfr', 'pair', 0x1f)
    for i, ms in enumerate((('bra',), ('brn',), ('bhi',), ('bls',), ('bcc', 'bhs'), ('bcs', 'blo'), ('bne',), ('beq',), ('bvc',), ('bvs',), ('bpl',), ('bmi',), ('bge',), ('blt',), ('bgt',), ('ble',))):
        for m in ms:
            put(t9, m, 'rel8', 0x20 + i)
            put(t9, 'l' + m, 'rel16', 0x1020 + i if i else 0x16)
    put(t9, 'bsr', 'rel8', 0x8d)
    put(t9, 'lbsr', 'rel16', 0x17)

    # 6309
    for m, lo in (('oim', 1), ('aim', 2), ('eim', 5), ('tim', 11)):
        put(t3, m, 'immdir', lo)
        put(t3, m, 'immidx', 0x60 + lo)
        put(t3, m, 'immext', 0x70 + lo)
    put(t3, 'sexw', 'inh', 0x14)
    put(t3, 'ldq', 'imm32', 0xcd)
    put(t3, 'ldq', 'dir', 0x10dc)
    put(t3, 'ldq', 'idx', 0x10ec)
    put(t3, 'ldq', 'ext', 0x10fc)
    mem(t3, 'stq', None, 0x10cd)
    for i, m in enumerate(('addr', 'adcr', 'subr', 'sbcr', 'andr', 'orr', 'eorr', 'cmpr')):
        put(t3, m, 'pair', 0x1030 + i)
    for i, m in enumerate(('pshsw', 'pulsw', 'pshuw', 'puluw')):
        put(t3, m, 'inh', 0x1038 + i)
    for m, lo in (('neg', 0), ('com', 3), ('lsr', 4), ('ror', 6), ('asr', 7), ('asl', 8), ('lsl', 8), ('rol', 9), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15)):
        put(t3, m + 'd', 'inh', 0x1040 + lo)
    for m, lo in (('com', 3), ('lsr', 4), ('ror', 6), ('rol', 9), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15)):
        put(t3, m + 'w', 'inh', 0x1050 + lo)
    for m, lo in (('com', 3), ('dec', 10), ('inc', 12), ('tst', 13), ('clr', 15)):
        put(t3, m + 'e', 'inh', 0x1140 + lo)
        put(t3, m + 'f', 'inh', 0x1150 + lo)
    for m, lo in (('subw', 0), ('cmpw', 1), ('sbcd', 2), ('andd', 4), ('bitd', 5), ('ldw', 6), ('eord', 8), ('adcd', 9), ('ord', 10), ('addw', 11)):
        mem(t3, m, None, 0x1080 + lo, 'imm16')
    mem(t3, 'stw', None, 0x1087)
    for r, b in (('e', 0x1180), ('f', 0x11c0)):
        for m, lo in (('sub', 0), ('cmp', 1), ('ld', 6), ('add', 11)):
            mem(t3, m + r, None, b + lo, 'imm8')
        mem(t3, 'st' + r, None, b + 7)
    mem(t3, 'divd', None, 0x118d, 'imm8')
    mem(t3, 'divq', None, 0x118e, 'imm16')
    mem(t3, 'muld', None, 0x118f, 'imm16')
    for i, m in enumerate(('band', 'biand', 'bor', 'bior', 'beor', 'bieor', 'ldbt', 'stbt')):
        put(t3, m, 'bit', 0x1130 + i)
    put(t3, 'tfm', 'tfm', 0x1138)
    put(t3, 'bitmd', 'imm8', 0x113c)
    put(t3, 'ldmd', 'imm8', 0x113d)
    return t9, t3


T6809, T6309X = _tables()
T6309 = dict(T6809)
T6309.update(T6309X)
INSTR = {0: T6809, 1: T6309}

REGS = dict(CC=0, A=1, B=2, DP=3, X=4, Y=5, U=6, S=7, PC=8, D=9, PCR=10, E=11, F=12, W=13, Q=14, V=15)
REGS_6809 = ['CC', 'A', 'B', 'DP', 'X', 'Y', 'U', 'S', 'PC', 'D', 'PCR']
REGS_6309 = REGS_6809 + ['E', 'F', 'W', 'Q', 'V']
# transfer postbyte nibbles / sizes
TFR = dict(D=0, X=1, Y=2, U=3, S=4, PC=5, W=6, V=7, A=8, B=9, CC=10, DP=11, E=14, F=15)
SIZE = dict(D=16, X=16, Y=16, U=16, S=16, PC=16, W=16, V=16, A=8, B=8, CC=8, DP=8, E=8, F=8)
STACKBIT = dict(CC=1, A=2, B=4, DP=8, X=16, Y=32, PC=128, D=6)


def opbytes(op):
    return [op >> 8, op & 255] if op > 255 else [op]

# accepted alternate spellings (Motorola 6800 style)
ALIASES = {'cpx': 'cmpx', 'ldaa': 'lda', 'ldab': 'ldb', 'oraa': 'ora', 'orab': 'orb', 'staa': 'sta', 'stab': 'stb'}
for _isa in INSTR:
    for _a, _m in ALIASES.items():
        INSTR[_isa][_a] = INSTR[_isa][_m]
