"""Abstract interpretation of the whole program from main with enumerated argument vectors (every option in its
short, joined, long, "=" forms, every pair where one may override the other) and abstract digits in the
numeric arguments.  Effects are read off what the run does: the bytes of the output file in the selected
format, execution address and symbol values computed from the abstract digits, the files created, passes
made, diagnostics printed, instructions accepted.  Unusable arguments and missing files must fail."""
import itertools
from outfmt import *
from c09 import take
import c11, c12, c13, c25
import prove
RULE = 'subject = argument vector form; obligation = (trace partition, class of digits)'
TECHNIQUE = 'abstract interpretation of main over enumerated argument vectors with abstract argument digits'

SRC = ' org $1234\n fcb 1,2,3\n'
D = [1, 2, 3]


def image_of(fmt, e=None, put=0x1234, d=D):
    b = [Block(put, d)]
    return {'raw': lambda: c13.raw(put, d, e), 'dragondos': lambda: c13.dragondos(put, d, e), 'coco': lambda: c13.coco(b, e),
            'srec': lambda: c11.srec(put, d) + c11.s9(e), 'hex': lambda: c12.whole(b, e)}[fmt]()


FMT = {'raw': ('-B', '--bin'), 'dragondos': ('-D', '--dragondos'), 'coco': ('-C', '--coco'), 'srec': ('-S', '--srec'), 'hex': ('-H', '--hex')}


def written(p):
    return sorted(s['name'] for s in streams(p.st) if 'w' in s['mode'] or 'a' in s['mode'])


def ok(argv, want, files=None, what='output', created=('out',), guards=None):
    """the run succeeds, creates exactly these files, and 'out' holds these items"""
    def go(ctx, rep):
        from check import _confirm
        for g, w in (guards() if guards else [([], want)]):
            ps = run_main(ctx, argv, files or {'in.s': SRC}, assume=g)
            for p in ps:
                if p.status != 'alarm' and written(p) != sorted(created):
                    _confirm(ctx, rep, p.st, p, None, (), '%s: files written: %s, expected %s (%s)' % (what, written(p), sorted(created), messages_of(p)), ctx.seed, 400)
            if 'out' in created:
                check_format(ctx, rep, ps, [([], w)], what)
            else:
                for p in ps:
                    if p.status == 'alarm' or exit_code(p) != 0:
                        rep.violation(p.loc, '%s: the run failed' % what)
                    else:
                        rep.ok()
                        rep.cases[what] = rep.cases.get(what, 0) + 1
    return go


def named(argv, out, files):
    """the raw image of SRC goes to the file of this name and to no other"""
    def go(ctx, rep):
        for p in run_main(ctx, argv, files):
            if p.status == 'alarm' or exit_code(p) != 0 or written(p) != [out]:
                rep.violation(p.loc, 'output to a name of %d characters: status %s, files of %s characters' % (len(out), p.status, [len(w) for w in written(p)]))
            else:
                rep.ok()
                rep.cases['named'] = rep.cases.get('named', 0) + 1
    return go


def fails(argv, files=None, assume=(), what='diagnosed'):
    """non-zero status, message, nothing created"""
    def go(ctx, rep):
        from check import _confirm
        n = 0
        for p in run_main(ctx, argv, files or {'in.s': SRC}, assume=assume):
            if not prove.feasible(p.st):
                continue
            n += 1
            silent = p.status != 'alarm' and not text(out_events(p.st, 'stderr')).strip()
            if p.status == 'alarm' or exit_code(p) in (0, None) or written(p) or silent:
                _confirm(ctx, rep, p.st, p, None, (), '%s: exit status %s, files %s%s' % (what, exit_code(p), written(p), ', no message' if silent else ''), ctx.seed, 400)
            else:
                rep.ok()
                rep.cases[what] = rep.cases.get(what, 0) + 1
        if not n:
            rep.gap('no partition')
    return go


HEX = lambda i: [(48, 57), (65, 70), (97, 102)]
DEC = lambda i: [(48, 57)]
OCT = lambda i: [(48, 55)]
BIN = lambda i: [(48, 49)]
NUM = [('', 10, DEC, (1, 2, 3, 4)), ('$', 16, HEX, (1, 2, 3, 4)), ('0x', 16, HEX, (1, 2, 3, 4)), ('@', 8, OCT, (1, 3, 5)), ('%', 2, BIN, (1, 8, 16)), ('0b', 2, BIN, (1, 8, 16))]
DIGITS = {}


def number(pre, base, ranges, n):
    """(argument bytes, [(guard, value)]): all digits of one class each for long numbers"""
    k = (pre, n)
    if k not in DIGITS:
        cs, alts = c25.digits(n, ranges)
        out = []
        for gs, vs in c25.product(alts):
            if n > 1 and len({off for c, off in vs}) > 1:
                continue
            out.append((list(gs), c25.value(vs, base)))
        DIGITS[k] = (L(pre) + cs, out)
    return DIGITS[k]


def L(s):
    return list(s.encode('latin-1'))


def numbers(ns=None):
    for pre, base, ranges, lens in NUM:
        for n in lens:
            if ns is None or n in ns:
                # a decimal number is one not starting as another base; leading zeros stay decimal
                yield ('%s%s digits' % (pre, n), *number(pre, base, ranges, n))


def joined(forms, arg):
    """argument vectors giving an option its argument in every way"""
    for f in forms:
        if f.startswith('--'):
            yield f + ' ARG', [f, arg]
            yield f + '=ARG', [L(f + '=') + arg]
        else:
            yield f + ' ARG', [f, arg]
            yield f + 'ARG', [L(f) + arg]


def exec_number(form, argv, alts, fmt, src=SRC):
    def guards():
        for g, v in alts:
            low = mk(64, v.c, dict(v.t)) if type(v) is S else v
            yield g, image_of(fmt, low)
    return ok(argv + [FMT[fmt][0], '-o', 'out', 'in.s'], None, {'in.s': src}, 'execution address', guards=guards)


def setdp(argv, alts):
    """direct page of the program: the address in it is reached by direct addressing, any other extended"""
    def go(ctx, rep):
        for g, v in alts:
            ps = run_main(ctx, argv + ['-o', 'out', 'in.s'], {'in.s': ' lda $3412\n'}, assume=g)
            bv = umod(8, u_lf(v, 64)) if type(v) is S else (v & 255, ())
            check_format(ctx, rep, ps, [([('lin', bv[0], bv[1], 0x34, 0x34)], B([0x96, 0x12])), ([('nlin', bv[0], bv[1], 0x34)], B([0xb6, 0x34, 0x12]))], 'direct page')
    return go


def define(argv, alts, name='foo'):
    def guards():
        for g, v in alts:
            yield g, B(list(c11.hilo(v)))
    return ok(argv + ['-o', 'out', 'in.s'], None, {'in.s': ' fdb %s\n' % name}, 'defined symbol', guards=guards)


def passes(argv, limit):
    """number of passes made when no pass is ever consistent, and when pass n is"""
    def go(ctx, rep):
        M = ctx.M
        E = errs(ctx)
        for settle in (None, limit - 1, limit - 2):
            if settle is not None and settle < 0:
                continue

            def hook(M, st, a):
                st.emit('pass', a[1])
                if settle is None or a[1] != settle:
                    m = M.cstr(st, b'not yet')
                    st2, _ = M.call1(st, 'error', [E['error_type_inconsistent'], m])
                    take(st, st2)
                return 0
            M.hooks['assemble_prog'] = hook
            try:
                ps = run_main(ctx, argv + ['in.s'], {'in.s': ' nop\n'})
            finally:
                del M.hooks['assemble_prog']
            for p in ps:
                n = sum(1 for e in p.st.events() if e[0] == 'pass')
                want = limit if settle is None else settle + 1
                st = 'failure' if settle is None else 'success'
                got = 'success' if exit_code(p) == 0 else 'failure'
                if p.status == 'alarm' or n != want or got != st:
                    rep.violation('main', '%d passes made with limit %d, %s; expected %d, %s' % (n, limit, got, want, st))
                else:
                    rep.ok()
                    rep.cases['limit'] = rep.cases.get('limit', 0) + 1
    return go


def verbosity(argv, shown):
    """which of the warning levels is printed"""
    def go(ctx, rep):
        M = ctx.M
        E = errs(ctx)
        levels = ['error_type_inefficient', 'error_type_illegal']

        def hook(M, st, a):
            for l in levels:
                m = M.cstr(st, l.encode())
                st2, _ = M.call1(st, 'error', [E[l], m])
                take(st, st2)
            return 0
        M.hooks['assemble_prog'] = hook
        try:
            ps = run_main(ctx, argv + ['in.s'], {'in.s': ' nop\n'})
        finally:
            del M.hooks['assemble_prog']
        for p in ps:
            t = text(out_events(p.st, 'stderr'))
            got = [l for l in levels if l in t]
            if p.status == 'alarm' or exit_code(p) != 0 or got != shown:
                rep.violation('main', 'printed warnings of %s, expected %s' % (got, shown))
            else:
                rep.ok()
                rep.cases['warnings'] = rep.cases.get('warnings', 0) + 1
    return go


def real_warning(argv, src, shown):
    def go(ctx, rep):
        for p in run_main(ctx, argv + ['in.s'], {'in.s': src}):
            t = text(out_events(p.st, 'stderr'))
            if p.status == 'alarm' or exit_code(p) != 0 or bool(t.strip()) != shown:
                rep.violation('main', '%s printed for %r' % (repr(t) if t else 'nothing', src))
            else:
                rep.ok()
                rep.cases['warnings'] = rep.cases.get('warnings', 0) + 1
    return go


FSRC = ' org $1234\nfoo fcb 1\nbar fcb 2\nm macro\n nop\n endm\n export foo\n'


def content(argv, which):
    """each requested file exists once and has its own kind of content"""
    def go(ctx, rep):
        for p in run_main(ctx, argv + ['in.s'], {'in.s': FSRC}):
            if p.status == 'alarm' or exit_code(p) != 0:
                rep.violation('main', 'the run failed: %s' % messages_of(p))
                continue
            ev = {s['name']: s for s in streams(p.st) if 'w' in s['mode']}
            if sorted(ev) != sorted(which.values()) or len(ev) != len([1 for s in streams(p.st) if 'w' in s['mode']]):
                rep.violation('main', 'files written: %s, expected %s' % (sorted(ev), sorted(which.values())))
                continue
            for kind, name in which.items():
                t = text(ev[name]['out'])
                good = {'o': t == '\x01\x02', 'E': t == 'foo\tequ\t4660\n', 's': sorted(t.splitlines()) == ['bar\tequ\t4661', 'foo\tequ\t4660'],
                        'l': ' export foo' in t and 'foo fcb 1' in t}[kind]
                if not good:
                    rep.violation('main', 'content of the file given to -%s: %r' % (kind, t[:200]))
                else:
                    rep.ok()
                    rep.cases['-' + kind] = rep.cases.get('-' + kind, 0) + 1
    return go


def shows(argv, words):
    def go(ctx, rep):
        for p in run_main(ctx, argv, {}):
            t = text(out_events(p.st, 'stdout'))
            if p.status == 'alarm' or exit_code(p) != 0 or any(w not in t for w in words) or written(p):
                rep.violation('main', 'exit status %s, printed %r' % (exit_code(p), t[:80]))
            else:
                rep.ok()
                rep.cases['information'] = rep.cases.get('information', 0) + 1
    return go


W6309 = {'in.s': ' ldw #$1234\n'}
# two files as if one: (first, second, output)
TWO = {
    'backward reference': (' org $100\nfoo fcb 1\n', ' fdb foo\n', [1, 1, 0]), 'forward reference': (' fdb foo\n', ' org $2\nfoo fcb 1\n', [0, 2, 1]),
    'location': (' org $1000\n fcb 1\n', ' fdb *\n', [1, 0x10, 1]), 'direct page': (' setdp $12\n', ' lda $1234\n', [0x96, 0x34]),
    'section': (' section "b"\n org $100\n fcb 1\n section "a"\n fcb 2\n', ' section "b"\n fdb *\n', None),
    'still in the section': (' section "b"\n org $100\n fcb 1\n', ' fdb *\n', [1, 1, 1]),
    'macro': ('mac macro\n fcb \\1\n endm\n', ' mac 5\n mac 6\n', [5, 6]), 'SET': ('foo set 1\n', ' fcb foo\nfoo set 2\n fcb foo\n', [1, 2]),
    'local label': ('1 fcb 0\n', ' bra 1B\n', [0, 0x20, 0xfd]), 'END of the first': (' fcb 1\n end\n fcb 2\n', ' fcb 3\n', [1, 3]), 'missing end of line': (' fcb 1', ' fcb 2', [1, 2]),
    'empty first': ('', ' fcb 2\n', [2]), 'empty second': (' fcb 1\n', '', [1]),
}


def two(n):
    a, b, w = TWO[n]
    return ok(['-o', 'out', 'a.s', 'b.s'], B(w), {'a.s': a, 'b.s': b}, 'several files')


def redefined(argv):
    return fails(argv, {'a.s': 'foo equ 1\n', 'b.s': 'foo equ 2\n'}, what='redefinition across files')


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog')
    deep = tier == 'thorough'
    out = []
    O = ['-o', 'out', 'in.s']
    # formats
    out.append(('default format', ok(O, image_of('raw'))))
    for f, forms in FMT.items():
        for x in forms:
            out.append(('format %s' % x, ok([x] + O, image_of(f))))
            out.append(('format after the file: %s' % x, ok(O + [x], image_of(f))))
            for y in itertools.chain(*FMT.values()):
                out.append(('format %s then %s' % (y, x), ok([y, x] + O, image_of(f))))
    # execution address
    E = ('-e', '--exec')
    for n, arg, alts in numbers():
        for form, argv in joined(E, arg) if deep or n in ('$4 digits', '4 digits') else list(joined(E, arg))[:1]:
            for fmt in ('dragondos', 'coco', 'srec', 'hex') if n == '$4 digits' else ('dragondos',):
                out.append(('exec %s: %s, %s' % (form, n, fmt), exec_number(form, argv, alts, fmt)))
    n, arg, alts = next(x for x in numbers() if x[0] == '$2 digits')
    out.append(('exec overrides END', exec_number('', ['-e', arg], alts, 'dragondos', SRC + ' end $4321\n')))
    out.append(('exec overrides END, after', exec_number('', ['-e', arg], alts, 'hex', SRC + ' end $4321\n')))
    out.append(('later exec overrides', exec_number('', ['-e', '$4321', '-e', arg], alts, 'dragondos')))
    out.append(('later exec overrides a symbol', exec_number('', ['-e', 'foo', '--exec', arg], alts, 'dragondos')))
    es = {'in.s': SRC + 'foo equ $4567\nbar equ foo+1\n_a.b fcb 4\n'}
    for s, v in (('foo', 0x4567), ('bar', 0x4568), ('_a.b', 0x1237)):
        for fmt in FMT:
            out.append(('exec symbol %s, %s' % (s, fmt), ok(['-e', s, FMT[fmt][0]] + O, image_of(fmt, v, d=D + [4]), es)))
    out.append(('exec symbol overrides END', ok(['-e', 'foo', '-D'] + O, image_of('dragondos', 0x4567, d=D + [4]), {'in.s': es['in.s'] + ' end bar\n'})))
    out.append(('exec symbol defined on the command line', ok(['-e', 'zip', '-d', 'zip=$89ab', '-D'] + O, image_of('dragondos', 0x89ab))))
    out.append(('exec zero', ok(['-e', '0', '-C'] + O, image_of('coco', 0))))
    for s in ('nowhere', 'FOO', '', '$', '$xyz', '12x', '0x', '@9', '%2', '-1', '1 2', '5foo'):
        def late_fail(s=s):
            def go(ctx, rep):
                for p in run_main(ctx, ['-e', s, '-D'] + O, es):
                    if p.status == 'alarm' or exit_code(p) in (0, None):
                        rep.violation('main', 'execution address %r accepted' % s)
                    elif not text(out_events(p.st, 'stderr')).strip():
                        rep.violation('main', 'execution address %r refused without a message' % s)
                    else:
                        rep.ok()
                        rep.cases['diagnosed'] = rep.cases.get('diagnosed', 0) + 1
            return go
        out.append(('exec %r' % s, late_fail()))
    # instruction set
    for a in (['-3'], ['--6309'], ['-8', '-3'], ['-9', '--6309'], ['--6809', '-3'], ['-3', '-3']):
        out.append(('ISA %s' % ' '.join(a), ok(a + O, B([0x10, 0x86, 0x12, 0x34]), W6309)))
    for a in ([], ['-8'], ['-9'], ['--6809'], ['-3', '-8'], ['-3', '-9'], ['--6309', '--6809'], ['-3', '--6809'], ['--6309', '-9']):
        out.append(('ISA %s' % ' '.join(a), fails(a + O, W6309)))
        out.append(('ISA %s accepts 6809 instructions' % ' '.join(a), ok(a + O, B([0x86, 1]), {'in.s': ' lda #1\n'})))
    out.append(('6309 register names', ok(['-3'] + O, B([0x11, 0x86, 1]), {'in.s': ' lde #1\n'})))
    # symbols
    DF = ('-d', '--define')
    for n, arg, alts in numbers(None if deep else (1, 2, 3, 5, 8, 16)):
        for form, argv in joined(DF, L('foo=') + arg) if deep or n in ('$3 digits', '3 digits') else list(joined(DF, L('foo=') + arg))[:1]:
            out.append(('define %s: %s' % (form, n), define(argv, alts)))
    for form, argv in joined(DF, L('foo')):
        out.append(('define %s without number' % form, define(argv, [([], 1)])))
    for a, v in ((['-d', 'foo=1', '-d', 'bar=2'], 1), (['-d', 'bar=2', '-d', 'foo=1'], 1), (['-d', 'foo=65535'], 65535), (['-d', 'foo=0'], 0), (['-d', 'foo=007'], 7), (['-d', 'foo=0010'], 10), (['-d', 'FOO=3', '-d', 'foo=4', '-d', 'Foo=5'], 4), (['-dfoo=$1f'], 31), (['-d', 'foo', '-d', 'bar=9'], 1)):
        out.append(('define %s' % ' '.join(a), define(a, [([], v)])))
    out.append(('defined symbol in a condition', ok(['-d', 'foo'] + O, B([1]), {'in.s': ' if foo\n fcb 1\n else\n fcb 2\n endif\n'})))
    out.append(('defined symbols used together', ok(['-d', 'foo=3', '-d', 'bar=5'] + O, B([15]), {'in.s': ' fcb foo*bar\n'})))
    for s in ('foo=', 'foo=x', 'foo=-1', 'foo=1x', 'foo=$', 'foo=$g', 'foo=@8', 'foo=%2', 'foo=0x', 'foo=0b2', 'foo= 1', 'foo=bar', 'foo=1=2'):
        out.append(('define %r' % s, fails(['-d', s] + O)))
    c = inp('ch', 8, 1, 255)
    for lo, hi in ((1, 47), (58, 255)):
        out.append(('define foo=C for characters %d-%d' % (lo, hi), fails(['-d', L('foo=') + [c]] + O, {'in.s': ' nop\n'}, [lin(c, lo, hi)])))
        out.append(('define foo=1C for characters %d-%d' % (lo, hi), fails(['-d', L('foo=1') + [c]] + O, {'in.s': ' nop\n'}, [lin(c, lo, hi)])))
    # direct page
    for n, arg, alts in numbers((1, 2, 3, 4, 8) if deep else (1, 2, 3, 8)):
        for form, argv in joined(('--setdp',), arg) if deep or n == '$2 digits' else list(joined(('--setdp',), arg))[:1]:
            out.append(('setdp %s: %s' % (form, n), setdp(argv, alts)))
    n, arg, alts = next(x for x in numbers() if x[0] == '$2 digits')
    out.append(('later setdp overrides', setdp(['--setdp', '$34', '--setdp', arg], alts)))
    dp0 = {'in.s': ' lda $12\n'}
    out.append(('no setdp', ok(O, B([0xb6, 0, 0x12]), dp0)))
    out.append(('setdp undefined', ok(['--setdp', '-'] + O, B([0xb6, 0, 0x12]), dp0)))
    out.append(('setdp undefined again', ok(['--setdp', '0', '--setdp', '-'] + O, B([0xb6, 0, 0x12]), dp0)))
    out.append(('setdp 0', ok(['--setdp', '0'] + O, B([0x96, 0x12]), dp0)))
    out.append(('setdp 255', ok(['--setdp=255'] + O, B([0x96, 0x12]), {'in.s': ' lda $ff12\n'})))
    out.append(('SETDP overrides', ok(['--setdp', '0'] + O, B([0xb6, 0, 0x12, 0x96, 0x34]), {'in.s': ' setdp $12\n lda $12\n lda $1234\n'})))
    for s in ('', 'x', '$', '$g', '1x', '@8', '0x', 'foo', '%3'):
        out.append(('setdp %r' % s, fails(['--setdp', s] + O)))
    # passes
    for n in (2, 3, 5, 11, 12, 13, 40, 254, 255) if not deep else range(2, 256):
        out.append(('max-passes -P %d' % n, passes(['-P', str(n)], n)))
    out.append(('max-passes default', passes([], 12)))
    out.append(('max-passes --max-passes', passes(['--max-passes', '7'], 7)))
    out.append(('max-passes --max-passes=', passes(['--max-passes=7'], 7)))
    out.append(('max-passes -P7', passes(['-P7'], 7)))
    out.append(('later max-passes overrides', passes(['-P', '20', '-P', '4'], 4)))
    out.append(('later max-passes overrides smaller', passes(['-P', '4', '-P', '20'], 20)))
    for s in ('', 'x', '1', '0', '-1', '-5', '256', '300', '1000', '5x', '5 ', '4294967298', '18446744073709551618', '99999999999999999999', '2.5', 'foo', '65538'):
        out.append(('max-passes %r' % s, fails(['-P', s] + O)))
    d = [inp('d%d' % i, 8, 48, 57) for i in range(2)]
    out.append(('max-passes 3NN', fails(['-P', L('3') + d] + O, {'in.s': ' nop\n'})))
    # verbosity
    both, one = ['error_type_inefficient', 'error_type_illegal'], ['error_type_illegal']
    for a, s in (([], one), (['-q'], []), (['--quiet'], []), (['-v'], both), (['--verbose'], both), (['-q', '-v'], both), (['-v', '-q'], []), (['--quiet', '--verbose'], both), (['--verbose', '--quiet'], []), (['-q', '-q'], []), (['-v', '-v'], both)):
        out.append(('warnings %s' % ' '.join(a), verbosity(a, s)))
    # files
    F = {'o': ('-o', '--output'), 'l': ('-l', '--listing'), 'E': ('-E', '--exports'), 's': ('-s', '--symbols')}
    for k, forms in F.items():
        for form, argv in joined(forms, L('file')):
            out.append(('file %s' % form, content(argv, {k: 'file'})))
        out.append(('file -%s twice' % k, content([forms[0], 'first', forms[1], 'second'], {k: 'second'})))
    for r in range(2, 5):
        for c in itertools.combinations(F, r):
            out.append(('files %s' % ','.join(c), content(list(itertools.chain(*[(F[k][0], 'f' + k) for k in c])), {k: 'f' + k for k in c})))
            out.append(('files %s, long, reversed' % ','.join(c), content(list(itertools.chain(*[(F[k][1], 'f' + k) for k in reversed(c)])), {k: 'f' + k for k in c})))
    out.append(('no files', ok(['in.s'], None, created=())))
    out.append(('no output with listing', content(['-l', 'fl'], {'l': 'fl'})))
    # combined forms
    out.append(('cluster -3Sv', ok(['-3Sv'] + O, c11.srec(0, [0x10, 0x86, 0x12, 0x34]) + c11.s9(None), W6309)))
    out.append(('cluster -qHe', ok(['-qHe$4321'] + O, image_of('hex', 0x4321))))
    out.append(('cluster -vDo', ok(['-vDo', 'out', 'in.s'], image_of('dragondos'))))
    out.append(('end of options', ok(['-o', 'out', '--', '-x.s'], image_of('raw'), {'-x.s': SRC})))
    out.append(('options after the file', ok(['in.s', '-S', '-o', 'out', '-e', '$1'], image_of('srec', 1))))
    # information
    out.append(('--help', shows(['--help'], ('Usage', 'SOURCE-FILE'))))
    out.append(('--version', shows(['--version'], ('asm6809',))))
    out.append(('--help with others', shows(['-o', 'out', '--help', 'nosuch.s'], ('Usage',))))
    # unusable
    for a in ([], ['-S'], ['-o', 'out'], ['--'], ['-o', 'out', '-d', 'foo=1']):
        out.append(('no source file: %s' % ' '.join(a), fails(a)))
    for a in (['-z'], ['-x', 'in.s'], ['--nosuch', 'in.s'], ['-o'], ['in.s', '-o'], ['in.s', '-e'], ['in.s', '-d'], ['in.s', '-P'], ['in.s', '-l'], ['in.s', '-E'], ['in.s', '-s'], ['in.s', '--exec'], ['in.s', '--define'], ['in.s', '--setdp'], ['in.s', '--max-passes'], ['in.s', '--output'], ['in.s', '--listing'], ['in.s', '--exports'], ['in.s', '--symbols'], ['--bin=1', 'in.s'], ['--6309=x', 'in.s'], ['-o', 'out', 'in.s', '-Sz'], ['--quiet=1', 'in.s'], ['-Bk', 'in.s']):
        out.append(('unusable: %s' % ' '.join(a), fails(a)))
    for a in (['nosuch.s'], ['in.s', 'nosuch.s'], ['nosuch.s', 'in.s'], ['in.s', 'in.s', 'nosuch.s'], ['']):
        out.append(('missing source: %s' % ' '.join(a), fails(['-o', 'out'] + a)))
    # several files
    for n in TWO:
        if TWO[n][2] is not None:
            out.append(('several files: %s' % n, two(n)))
    out.append(('redefinition across files', redefined(['-o', 'out', 'a.s', 'b.s'])))
    out.append(('order of files', ok(['-o', 'out', 'b.s', 'a.s', 'c.s'], B([2, 1, 3]), {'a.s': ' fcb 1\n', 'b.s': ' fcb 2\n', 'c.s': ' fcb 3\n'})))
    out.append(('a file twice', ok(['-o', 'out', 'a.s', 'b.s', 'a.s'], B([1, 2, 1]), {'a.s': ' fcb 1\n', 'b.s': ' fcb 2\n'})))
    out.append(('error in the second file', fails(['-o', 'out', 'a.s', 'b.s'], {'a.s': ' fcb 1\n', 'b.s': ' frob\n'})))
    out.append(('error in the first file', fails(['-o', 'out', 'b.s', 'a.s'], {'a.s': ' fcb 1\n', 'b.s': ' frob\n'})))
    out.append(('syntax error in the second file', fails(['-o', 'out', 'a.s', 'b.s'], {'a.s': ' fcb 1\n', 'b.s': '+ + +\n'})))
    # arguments of any length, any number of arguments
    for n in (7, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 4096):
        b = 'p' * n
        for x in ('-o', '--output'):
            out.append(('%s with a name of %d characters' % (x, n), named([x, b + '1', b + '2'], b + '1', {b + '2': SRC, b: ' frob\n', b + '1': ' frob\n'})))
        out.append(('define names of %d characters' % n, ok(['-d', b + 'x=7', '-d', b + 'y=9', '-d', b] + O, B([7, 9, 1]), {'in.s': ' fcb %sx,%sy,%s\n' % (b, b, b)})))
        out.append(('define a number of %d digits' % n, ok(['-d', 'foo=%s7' % ('0' * n), '-d', 'bar=$%s0a' % ('0' * n)] + O, B([7, 10]), {'in.s': ' fcb foo,bar\n'})))
        out.append(('exec symbol of %d characters' % n, ok(['-e', b + 'y', '-D'] + O, image_of('dragondos', 0x4567), {'in.s': SRC + '%sx equ $1234\n%sy equ $4567\n%s equ $89ab\n' % (b, b, b)})))
        out.append(('files with names of %d characters' % n, content(list(itertools.chain(*[(F[k][0], b + k) for k in 'les' if k in F])), {k: b + k for k in 'les' if k in F})))
    for n in (12, 33, 70):
        out.append(('%d defined symbols' % n, ok(list(itertools.chain(*[('-d', 'foo%d=%d' % (i, i * 3 & 255)) for i in range(n)])) + O, B([i * 3 & 255 for i in range(n)]), {'in.s': ''.join(' fcb foo%d\n' % i for i in range(n))})))
        out.append(('%d source files' % n, ok(['-o', 'out'] + ['f%d' % i for i in range(n)], B(list(range(n))), {'f%d' % i: ' fcb %d\n' % i for i in range(n)})))
        out.append(('%d source files, the last one wrong' % n, fails(['-o', 'out'] + ['f%d' % i for i in range(n)], {'f%d' % i: ' fcb %d\n' % i if i < n - 1 else ' frob\n' for i in range(n)})))
        out.append(('%d repeated options' % n, ok(['-S', '-v', '-D'] * n + ['-e', '$4321'] * n + O, image_of('dragondos', 0x4321))))
    return out
