"""Abstract interpretation of the whole program writing Intel HEX output for blocks of every size around
the record boundaries (and several blocks), with every data byte, every load address and the execution
address abstract.  The token stream written must equal, item by item, the records of the format
computed from those abstract values: counts, addresses, data in order, checksums, and one end record
carrying the execution address."""
from outfmt import *
from c11 import z, neg, hilo, subject, subjects, many
RULE = 'subject = (block sizes, execution address); obligation = trace partition of the whole output'


def records(put, data):
    out = []
    for i in range(0, len(data), 32):
        d = data[i:i + 32]
        n = len(d)
        if type(put) is int:
            hi, lo = ((put + i) >> 8) & 255, (put + i) & 255
        else:
            a = (put.c + i, put.t)
            hi, lo = byte(a, 8), byte(a)
        out += C(':') + X(n, hi, lo, 0) + X(*[z(x) for x in d]) + X(neg(n, hi, lo, *d)) + C('\n')
    return out


def end(e):
    if e is None:
        return C(':00000001FF\n')
    hi, lo = hilo(e)
    return C(':00') + X(hi, lo, 1) + X(neg(1, hi, lo)) + C('\n')


def whole(blocks, e):
    out = []
    for b in blocks:
        out += records(b.put, b.data)
    return out + end(e)


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog')
    return [('blocks of %s bytes, execution address %s' % (list(s), e), subject(s, e, '-H', whole)) for s, e in subjects(tier)] + many(tier, '-H', whole) + large_and_relocated('-H', whole, tier, BIGSIZES[tier])
