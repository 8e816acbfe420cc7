"""Abstract interpretation of assemble_prog for the placing directives with abstract operands (every
value): where data following ORG, PUT, RMB, ALIGN land and what the location counter is, and that
addresses and counts outside the documented ranges are diagnosed.  Alignments up to 64 (and more) are
enumerated with an abstract location.  Then, through the whole program, every short sequence of placing
steps over sections with an abstract base: bytes and location counter values in the output equal those
the statements define."""
import embed
from layout import *
import itertools
RULE = 'subject = (directive, operand) | sequence of placing steps; obligation = trace partition'
M16 = 0x10000


def where(ctx):
    """class, data spans [(org, put, bytes)]"""
    def f(p):
        if p.status == 'exit':
            return {'cls': 'exit'}
        lv = ctx.errlevel(p.st)
        sp = [s for s in ctx.spans(p.st) if s[2] != 0]
        r = {'cls': cls_of(ctx, lv), 'n': len(sp)}
        for i, s in enumerate(sp):
            r['org%d' % i], r['put%d' % i], r['bytes%d' % i] = s[0], s[1], s[3]
        return r
    return f


def at32(v, k=0):
    c, t = (v.c + k, dict(v.t)) if type(v) is S else (v + k, {}) if type(v) is int else (v[0] + k, dict(v[1]))
    return mk(32, c, t) if t else c & 0xffffffff


def W(v, k=0):
    return ('w', 32, at32(v, k))


def addf(*vs):
    c, t = 0, {}
    for v in vs:
        if type(v) is int:
            c += v
            continue
        vc, vt = (v.c, v.t) if type(v) is S else v
        c += vc
        for a, k in (vt.items() if type(vt) is dict else vt):
            t[a] = t.get(a, 0) + k
    return c, tuple(sorted(((a, k) for a, k in t.items() if k), key=lambda z: z[0].id))


def rng(f, lo, hi):
    return ('lin', f[0], f[1], lo, hi)


BIGN = 1 << 70


def data3():
    return data(3, 'd')


def fcb(d):
    return (None, 'fcb', [('int', x) for x in d])


def bz(d):
    return [z8(x) for x in d]


def z8(x):
    return x & 255 if type(x) is int else byte(x)


HERE = (None, 'fdb', [('pc',)])


def here(f):
    v = at32(f)
    return [byte(v, 8), byte(v)] if type(v) is S else [(v >> 8) & 255, v & 255]


def org_any(n, label):
    def go(ctx, rep):
        v, d = v64('v'), data(n, 'd')
        lines_ = [(lab('here') if label else None, 'org', [('int', v)]), fcb(d)]
        want = bz(d)
        if label:
            lines_.append((None, 'fdb', [lab('here')]))
            want = want + [byte(v, 8), byte(v)]
        k = len(want)
        cases = [Case('in range', [lin(v, 0, M16 - k)], cls='ok', n=1, org0=W(v), put0=W(v), bytes0=want)]
        cases += [Case('beyond memory', [lin(v, M16 - n + 1, BIGN)], cls='err'), Case('negative', [lin(v, -BIGN, -1)], cls='err')]
        if label:
            cases.append(Case('label beyond memory', [lin(v, M16 - k + 1, M16 - n)], cls='err'))
        compare(ctx, rep, asm(ctx, lines_), cases, where(ctx), seed=ctx.seed)
    return go


def put_any(n):
    def go(ctx, rep):
        o, v, d = v64('o', 0, M16 - n - 2), v64('v'), data(n, 'd')
        ps = asm(ctx, [(None, 'org', [('int', o)]), (None, 'put', [('int', v)]), fcb(d), HERE])
        k = n + 2
        cases = [Case('in range', [lin(v, 0, M16 - k)], cls='ok', n=1, org0=W(o), put0=W(v), bytes0=bz(d) + here(addf(o, n)))]
        cases += [Case('beyond memory', [lin(v, M16 - k + 1, BIGN)], cls='err'), Case('negative', [lin(v, -BIGN, -1)], cls='err')]
        compare(ctx, rep, ps, cases, where(ctx), seed=ctx.seed)
    return go


def org_after_put():
    def go(ctx, rep):
        a, b, d = v64('a', 0, M16 - 5), v64('b', 0, M16 - 5), data3()
        ps = asm(ctx, [(None, 'put', [('int', a)]), (None, 'org', [('int', b)]), fcb(d), HERE])
        compare(ctx, rep, ps, [Case('last placing statement', [], cls='ok', n=1, org0=W(b), put0=W(b), bytes0=bz(d) + here(addf(b, 3)))], where(ctx), seed=ctx.seed)
    return go


def rmb_any(via):
    def go(ctx, rep):
        o, p, c, d = v64('o', 0, M16 - 5), v64('p', 0, M16 - 5), v64('c'), data3()
        pre = [(None, 'org', [('int', o)])]
        if via == 'put':
            pre.append((None, 'put', [('int', p)]))
        else:
            p = o
        cv = ('int', c)
        if via == 'symbol':
            pre.append((lab('size'), 'equ', [cv]))
            cv = lab('size')
        ps = asm(ctx, pre + [(None, 'rmb', [cv]), fcb(d), HERE])
        oc, pc = addf(o, c), addf(p, c)
        ok = [rng(oc, 0, M16 - 5), rng(pc, 0, M16 - 5), lin(c, 0, BIGN)]
        cases = [Case('in range', ok, cls='ok', n=1, org0=W(oc), put0=W(pc), bytes0=bz(d) + here(addf(oc, 3))),
                 Case('negative', [lin(c, -BIGN, -1)], cls='err'), Case('beyond memory', [rng(oc, M16 - 4, BIGN)], cls='err')]
        if via == 'put':
            cases.append(Case('load address beyond memory', [rng(pc, M16 - 4, BIGN)], cls='err'))
        compare(ctx, rep, ps, cases, where(ctx), seed=ctx.seed)
    return go


def rmb_label():
    def go(ctx, rep):
        o, c = v64('o', 0, 0x7000), v64('c', 0, 0x7000)
        ps = asm(ctx, [(None, 'org', [('int', o)]), (lab('buf'), 'rmb', [('int', c)]), (lab('next'), None, None), (None, 'fdb', [lab('buf'), lab('next')])])
        compare(ctx, rep, ps, [Case('labels around a reservation', [], cls='ok', bytes0=here(o) + here(addf(o, c)))], where(ctx), seed=ctx.seed)
    return go


def align(n, fill, via=None):
    def go(ctx, rep):
        d = data3()
        p = v64('p', 0, M16 - 2 * n - 6)
        f = v64('f') if fill else None
        for r in range(n):
            c = (n - r) % n
            # the location is n*q + r
            q = v64('q', 0, (M16 - 2 * n - 6 - r) // n)
            o2 = mk(64, r, {a: k * n for a, k in q.t})
            pre2 = [(None, 'org', [('int', o2)])]
            p2 = o2
            if via == 'put':
                pre2.append((None, 'put', [('int', p)]))
                p2 = p
            oc, pc = addf(o2, c), addf(p2, c)
            if fill:
                w = dict(org0=W(o2), put0=W(p2), bytes0=[byte(f)] * c + bz(d) + here(addf(oc, 3)))
            else:
                w = dict(org0=W(oc), put0=W(pc), bytes0=bz(d) + here(addf(oc, 3)))
            ps = asm(ctx, pre2 + [(None, 'align', [('int', n)] + ([('int', f)] if fill else [])), fcb(d), HERE])
            compare(ctx, rep, ps, [Case('aligned to %d' % n, [], cls='ok', n=1, **w)], where(ctx), seed=ctx.seed)
    return go


def align_bad(fill):
    def go(ctx, rep):
        for lo, hi, what in ((MIN64, -1, 'negative alignment'), (M16 + 1, MAX64, 'alignment beyond memory')):
            n = v64('n', lo, hi)
            ps = asm(ctx, [(None, 'align', [('int', n)] + ([('int', v64('f'))] if fill else [])), fcb(data3())])
            compare(ctx, rep, ps, [Case(what, [], cls='err')], where(ctx), seed=ctx.seed)
    return go


def edge(op, n):
    """emission reaching exactly the end of memory, and one further"""
    def go(ctx, rep):
        o = v64('o', M16 - 12, M16)
        d = data(n, 'd')
        L = {'fcb': fcb(d), 'fdb': (None, 'fdb', [('int', x) for x in d]), 'fqb': (None, 'fqb', [('int', x) for x in d]),
             'nop': (None, 'nop', None), 'jmp': (None, 'jmp', [('int', 0x1234)]), 'ldd': (None, 'ldd', [imm(ctx, ('int', 1))]),
             'rzb': (None, 'rzb', [('int', n)]), 'fill': (None, 'fill', [('int', 1), ('int', n)]), 'rmb': (None, 'rmb', [('int', n)]),
             'string': (None, 'fcc', [('str', 'x' * n)])}[op]
        k = {'fcb': n, 'fdb': 2 * n, 'fqb': 4 * n, 'nop': 1, 'jmp': 3, 'ldd': 3, 'rzb': n, 'fill': n, 'rmb': n, 'string': n}[op]
        ps = asm(ctx, [(None, 'org', [('int', o)]), L])
        for which in ('both', 'put'):
            if which == 'put':
                ps = asm(ctx, [(None, 'org', [('int', 0x1000)]), (None, 'put', [('int', o)]), L])
            fit = Case('up to the end of memory', [lin(o, 0, M16 - k)], cls='ok', n=0 if op == 'rmb' else 1)
            compare(ctx, rep, ps, [fit, Case('beyond the end of memory', [lin(o, M16 - k + 1, M16)], cls='err')], where(ctx), seed=ctx.seed)
    return go


def steps_subject(steps, what, f='-S'):
    return subject(f, steps, what)


D1, D2 = data(1, 'x'), data(2, 'y')
ALPHA = [('data', D1), ('here',), ('org', 0), ('org', 8), ('put', 16), ('put', 24), ('rmb', 1), ('sec', 'A'), ('sec', CODE)]


def sequences(n):
    for seq in itertools.product(ALPHA, repeat=n):
        steps = [('org', 4), ('here',)] + list(seq) + [('here',)]
        yield steps


def names():
    def go(ctx, rep):
        for n in ('CODE', 'DATA', 'BSS', 'RAM', 'AUTO'):
            steps = [('org', 4), ('here',), ('name', n), ('here',), ('sec', 'other'), ('here',), ('sec', n), ('here',), ('sec', CODE), ('here',), ('name', n), ('here',)]
            subject('-S', steps, 'section named by its directive')(ctx, rep)
    return go


def section_names(a, b, same):
    """two section names continue the same section exactly when they are the same string"""
    def go(ctx, rep):
        o, p = v64('o', 0, 0x7000), v64('p', 0, 0x7000)
        sec = lambda n: (None, 'section', [('str', n)])
        ps = asm(ctx, [sec(a), (None, 'org', [('int', o)]), fcb([1]), sec('zz'), (None, 'org', [('int', p)]), sec(b), HERE])
        compare(ctx, rep, ps, [Case('same section' if same else 'different section', [], cls='ok', **({'bytes0': [1] + here(addf(o, 1))} if same else {'bytes0': here(0)}))], where(ctx), seed=ctx.seed)
    return go


def many_sections(n):
    """n sections, revisited in another order: each continues where it stopped"""
    def go(ctx, rep):
        base = v64('base', 0, 0x8000)
        names_ = ['S%d' % i for i in range(n)]
        steps = [('org', 0)]
        for i, s in enumerate(names_):
            steps += [('sec', s), ('org', 16 * i), ('here',)]
        for s in names_[::-1]:
            steps += [('sec', s), ('here',)]
        for i in range(n):
            steps += [('sec', names_[(i * 7 + 3) % n]), ('data', data(1, 'm%d_' % i))]
        m = image(steps, base)
        ps = run_passes(ctx, [lines(steps, base)], None, ['-S', '-o', 'out'])
        check_format(ctx, rep, ps, [([], out_form('-S', m))], 'many sections')
    return go


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog')
    deep = tier == 'thorough'
    out = []
    for n in (1, 3, 16):
        for l in (0, 1):
            out.append(('ORG with any address and %d bytes%s' % (n, ', labelled' if l else ''), org_any(n, l)))
        out.append(('PUT with any address and %d bytes' % n, put_any(n)))
    out.append(('PUT then ORG', org_after_put()))
    for via in ('org', 'put', 'symbol'):
        out.append(('RMB with any count after %s' % via, rmb_any(via)))
    out.append(('labels around RMB', rmb_label()))
    for n in list(range(1, 17)) + [32, 64] + ([100, 128, 255, 256, 257] if deep else []):
        for fill in (0, 1):
            for via in (None, 'put'):
                if n > 16 and fill and not deep:
                    continue
                out.append(('ALIGN %d%s%s' % (n, ' with fill' if fill else '', ' after PUT' if via else ''), align(n, fill, via)))
    for fill in (0, 1):
        out.append(('ALIGN with invalid alignment%s' % (' and fill' if fill else ''), align_bad(fill)))
    for op in ('fcb', 'fdb', 'fqb', 'nop', 'jmp', 'ldd', 'rzb', 'fill', 'rmb', 'string'):
        for n in ((1, 2, 3) if op in ('fcb', 'fdb', 'fqb', 'rzb', 'fill', 'rmb', 'string') else (1,)):
            out.append(('%s of %d at the end of memory' % (op, n), edge(op, n)))
    out.append(('sections named by directives', names()))
    for a, b, s in (('A', 'A', 1), ('A', 'B', 0), ('A', 'AA', 0), ('AB', 'BA', 0), ('code', 'data', 0), ('x', 'y', 0), ('section one', 'section one', 1), ('section one', 'section onf', 0)):
        out.append(('sections %r and %r' % (a, b), section_names(a, b, s)))
    for n in (3, 12) + ((40,) if deep else ()):
        out.append(('%d sections' % n, many_sections(n)))
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for steps in sequences(n):
            out.append(('placing: %s' % show_steps(steps), subject('-S', steps, 'placing steps')))
    out += embed.subjects('C15', tier)
    return out
