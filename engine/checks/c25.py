"""Abstract interpretation of the scanner (the automaton flex derives from the current lex.l), the parser (bison's
automaton of the current grammar.y) and their actions over source text whose digits, letters and quoted
characters are abstract: each literal form must yield exactly the number its digits spell (as a linear form over the
abstract digit characters), in operands and in the label field; register names, symbol names, strings with every
escape, operand forms and comments must be recognised as documented; a line that does not fit is diagnosed with its own
line number and the lines after it are still read."""
from common import *
RULE = 'subject = (literal or operand form, position, length); obligation = (trace partition, case of digit / character classes)'
W = 64


def num(n):
    return ('int', n)


def lines_case(name, guard, lines):
    return Case(name, guard, cls='ok', lines=lines)


def run(ctx, rep, src, cases, isa=0, cover=True):
    split(ctx, rep, src, cases, isa)


def split(ctx, rep, src, cases, isa=0, obs=None):
    """the guard of each case is assumed from the start"""
    for c in cases:
        compare(ctx, rep, parse(ctx, src, isa, assume=c.guard), [Case(c.name, [], **c.want)], obs or parse_obs(ctx), seed=ctx.seed)


def L(s):
    return list(s.encode('latin-1'))


def digits(n, ranges):
    """n abstract characters and for each the alternatives [(guard, value form)]"""
    cs = [inp('d%d' % i, 8, min(r[0] for r in ranges(i)), max(r[1] for r in ranges(i))) for i in range(n)]
    alts = []
    for i, c in enumerate(cs):
        a = []
        for lo, hi in ranges(i):
            off = 48 if hi <= 57 else 55 if hi <= 90 else 87
            a.append((lin(c, lo, hi), (c, off)))
        alts.append(a)
    return cs, alts


def product(alts):
    if not alts:
        yield (), ()
        return
    for g, v in alts[0]:
        for gs, vs in product(alts[1:]):
            yield (g,) + gs, (v,) + vs


def value(vs, base):
    t = mk(64, 0, {})
    for c, off in vs:
        t = add(64, mulc(64, t, base) if type(t) is S else (t * base) & ((1 << 64) - 1), mk(64, c.c - off, dict(c.t)))
    return t


def literal(pre, base, n, ranges, label):
    """the same literal as operand or in the label field; characters outside the ranges are excluded by assumption"""
    def go(ctx, rep):
        cs, alts = digits(n, ranges)
        cases = []
        keep = []
        for gs, vs in product(alts):
            v = value(vs, base)
            ln = [(('int', v), None, None)] if label else [(None, name_node('fdb'), ('arr', ('int', v), ('int', 1)))]
            cases.append(lines_case('digits', list(gs), ln))
        src = (L(pre) + cs + [10]) if label else L(' fdb ' + pre) + cs + L(',1\n')
        # only the digits proper: other characters belong to other forms
        split(ctx, rep, src, cases)
    return go


def one(src, lines, isa=0):
    def go(ctx, rep):
        want = lines(ctx) if callable(lines) else lines
        run(ctx, rep, src, [lines_case('documented reading', [], want)], isa)
    return go


def fdb(*args):
    return [(None, name_node('fdb'), ('arr',) + args)]


def quoted(close, label):
    """'c and 'c' for every character c"""
    def go(ctx, rep):
        c = inp('c', 8, 1, 255)
        v = mk(64, 0, dict(c.t))
        ln = [(('int', v), None, None)] if label else fdb(('int', v), ('int', 1))
        pre, post = ([], [10]) if label else (L(' fdb '), L(',1\n'))
        src = pre + [39, c] + ([39] if close else []) + post
        # a newline ends the line and a carriage return before it belongs to the line ending; '' is the character itself
        cases = [lines_case('below LF', [lin(c, 1, 9)], ln), lines_case('above LF', [lin(c, 11, 12)], ln), lines_case('others', [lin(c, 14, 255)], ln)]
        if not label or close:
            cases.append(lines_case('CR', [lin(c, 13, 13)], ln))
        else:
            cases.append(Case('CR', [lin(c, 13, 13)], cls=ANY))
        cases.append(Case('LF', [lin(c, 10, 10)], cls='err'))
        run(ctx, rep, src, cases, cover=False)
    return go


def name_char(field, first):
    """every character of the documented name alphabet takes part in a name"""
    def go(ctx, rep):
        c = inp('c', 8, 1, 255)
        cl = [(65, 90), (97, 122), (95, 95)] + ([] if first else [(48, 57), (46, 46)])
        nm = ([c] + L('zq')) if first else L('zq') + [c] + L('k')
        node = ('id', ('str', tuple(nm)))
        if field == 'label':
            src, ln = nm + [10], [(node, None, None)]
        elif field == 'opcode':
            src, ln = [32] + nm + L(' 5\n'), [(None, node, ('arr', ('int', 5)))]
        else:
            src, ln = L(' fdb 1,') + nm + L('+2\n'), fdb(('int', 1), ('op', ord('+'), node, ('int', 2)))
        cases = [lines_case('name', [lin(c, lo, hi)], ln) for lo, hi in cl]
        split(ctx, rep, src, cases)
    return go


def word(n, isa):
    """words of n abstract letters: register exactly when spelled like one, in either case"""
    def go(ctx, rep):
        cs = [inp('c%d' % i, 8, 65, 122) for i in range(n)]
        regs = [r for r in REGS if len(r) == n and (isa or r not in ('E', 'F', 'W', 'Q', 'V'))]
        src = L(' fdb ') + cs + [10]
        cases = []

        def case_of(r):
            def alt(i):
                if i == n:
                    yield []
                    return
                for k in alt(i + 1):
                    yield [lin(cs[i], ord(r[i]), ord(r[i]))] + k
                    yield [lin(cs[i], ord(r[i].lower()), ord(r[i].lower()))] + k
            return list(alt(0))
        for r in regs:
            for g in case_of(r):
                cases.append(lines_case('register ' + r, g, fdb(('reg', REGS[r]))))
        # everything else made of letters is a name
        nm = fdb(('id', ('str', tuple(cs))))

        def others(i, live):
            """guards for the words that are no register; live: registers still matched"""
            if not live:
                for k in product([[(lin(c, a, b), None) for a, b in ((65, 90), (97, 122))] for c in cs[i:]]):
                    yield list(k[0])
                return
            if i == n:
                return
            heads = sorted({x for r in live for x in (ord(r[i]), ord(r[i].lower()))})
            for x in heads:
                for k in others(i + 1, [r for r in live if ord(r[i].upper()) == ord(chr(x).upper())]):
                    yield [lin(cs[i], x, x)] + k
            for a, b in ((65, 90), (97, 122)):
                lo = a
                for x in [h for h in heads if a <= h <= b] + [b + 1]:
                    if lo <= x - 1:
                        for k in others(i + 1, []):
                            yield [lin(cs[i], lo, x - 1)] + k
                    lo = x + 1
        for g in others(0, regs):
            cases.append(lines_case('name', g, nm))
        split(ctx, rep, src, cases, isa)
    return go


def pcr(isa):
    """three letter words starting with PC"""
    def go(ctx, rep):
        for pre in ('pc', 'PC', 'pC', 'Pc'):
            c = inp('c', 8, 65, 122)
            cases = [lines_case('register PCR', [lin(c, x, x)], fdb(('reg', REGS['PCR']))) for x in (82, 114)]
            for a, b in ((65, 81), (83, 90), (97, 113), (115, 122)):
                cases.append(lines_case('name', [lin(c, a, b)], fdb(('id', ('str', S_(pre) + (c,))))))
            split(ctx, rep, L(' fdb ' + pre) + [c, 10], cases, isa)
    return go


def local(pre, ch_, kind, n):
    def go(ctx, rep):
        cs, alts = digits(n, lambda i: [(49, 57)] if i == 0 else [(48, 57)])
        c = inp('z', 8, 1, 255)
        src = L(' fdb ' + pre) + cs + [c] + L(',1\n')
        cases = []
        for gs, vs in product(alts):
            v = value(vs, 10)
            for x in ch_:
                cases.append(lines_case(kind, list(gs) + [lin(c, ord(x), ord(x))], fdb((kind, v), ('int', 1))))
        split(ctx, rep, src, cases)
    return go


def string(delim, n):
    """strings of n abstract characters"""
    def go(ctx, rep):
        cs = [inp('c%d' % i, 8, 1, 255) for i in range(n)]
        src = L(' fcc %s' % delim) + cs + L('%s,1\n' % delim)
        special = {10, 13, ord('&'), ord('\\'), ord(delim)}
        cuts = sorted(special)
        rs, lo = [], 1
        for x in cuts + [256]:
            if lo <= x - 1:
                rs.append((lo, x - 1))
            lo = x + 1
        cases = []
        for gs, _ in product([[(lin(c, a, b), None) for a, b in rs] for c in cs]):
            cases.append(Case('characters', list(gs), cls='ok', text=list(cs)))
        split(ctx, rep, src, cases, obs=text_obs(ctx))
    return go


def text_obs(ctx, arg=1):
    """characters of the string operand, its parts joined"""
    def f(p):
        ls = parsed(ctx, p)
        t = ls[0][2]
        r = {'cls': cls_of(ctx, ctx.errlevel(p.st)), 'text': None}
        if len(ls) == 1 and t and t[0] == 'arr' and len(t) == 3 and t[2] == ('int', 1) and t[1][0] == 'text':
            out = []
            for x in t[1][1:]:
                if x[0] != 'str':
                    return dict(r, text=t)
                out.extend(x[1])
            r['text'] = out
        return r
    return f


def escape():
    """backslash followed by any character"""
    def go(ctx, rep):
        c = inp('c', 8, 1, 255)
        src = L(' fcc "p\\') + [c] + L('q",1\n')
        cases = []
        lit = [(1, 9), (11, 12), (14, 48 - 1), (58, ord('n') - 1), (ord('n') + 1, ord('r') - 1), (ord('r') + 1, ord('{') - 1), (ord('{') + 1, 255)]
        for a, b in lit:
            cases.append(Case('character itself', [lin(c, a, b)], cls='ok', text=L('p') + [c] + L('q')))
        cases.append(Case('newline', [lin(c, ord('n'), ord('n'))], cls='ok', text=L('p\nq')))
        cases.append(Case('return', [lin(c, ord('r'), ord('r'))], cls='ok', text=L('p\rq')))
        split(ctx, rep, src, cases, obs=text_obs(ctx))
    return go


def interp(field, form):
    """positional variables: which argument, and where they are recognised"""
    def go(ctx, rep):
        d = inp('d', 8, 48, 57)
        braces = '{' in form
        k = [d] if not braces else [inp('d0', 8, 49, 57), d]
        body = L(form[0]) + (L('{') if braces else []) + k + (L('}') if braces else [])
        node = ('id', ('interp', tuple(k)))
        if field == 'label':
            src, ln = body + [10], [(node, None, None)]
        elif field == 'opcode':
            src, ln = [32] + body + L(' 5\n'), [(None, node, ('arr', ('int', 5)))]
        elif field == 'arg':
            src, ln = L(' fdb 1,') + body + L('*2\n'), fdb(('int', 1), ('op', ord('*'), node, ('int', 2)))
        elif field == 'paste':
            src, ln = L(' fdb k') + body + L('7z\n'), fdb(('id', ('str', S_('k')), ('interp', tuple(k)), ('str', S_('7z'))))
        else:
            src, ln = L(' fdb "k') + body + L('z"\n'), fdb(('text', ('str', S_('k')), ('interp', tuple(k)), ('str', S_('z'))))
        run(ctx, rep, src, [lines_case('variable', [], ln)])
    return go


def bad(src, line, after):
    """a line that does not fit, and the lines read nevertheless"""
    def go(ctx, rep):
        rep.cur = 'bad %r' % src
        for p in parse(ctx, src):
            if p.status != 'ret':
                if p.status == 'alarm':
                    rep.violation(p.loc, '%s: %s' % p.value[:2])
                else:
                    rep.violation(p.loc, 'the parser %s' % p.status)
                continue
            lv = ctx.errlevel(p.st)
            if cls_of(ctx, lv) != 'err':
                rep.violation('grammar_parse_file', 'no diagnostic for a line that does not fit the syntax')
                continue
            ms = messages(ctx, p.st)
            if not any('x.s:%d:' % line in m for m in ms):
                rep.violation('grammar_parse_file', 'the diagnostic does not name line %d: %s' % (line, ms))
                continue
            got = [l for l in parsed(ctx, p)]
            if [g for g in got if g != (None, None, None)] != after:
                rep.violation('grammar_parse_file', 'lines read are %s, expected %s' % (got, after))
                continue
            rep.ok()
    return go


def big_source(n, longest, shift):
    """n lines of every kind, up to `longest` characters each: every token at many offsets of the scanner's buffer"""
    def go(ctx, rep):
        src, want = [], []
        x = shift * 7919 + 1
        for i in range(n):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            k, r = (x >> 8) % 8, (x >> 12) % longest
            if k == 0:
                src.append('*' + 'c' * r)
                want.append((None, None, None))
            elif k == 1:
                src.append(' lda %d' % (x & 0xffff) + ' ' * (r // 2) + '; comment, "x' )
                want.append((None, name_node('lda'), ('arr', num(x & 0xffff))))
            elif k == 2:
                w = 'n' + 'ame_'[i % 4] * (r % 300) + str(i)
                src.append('%s fdb %s,%s' % (w, w, i))
                want.append((name_node(w), name_node('fdb'), ('arr', name_node(w), num(i))))
            elif k == 3:
                src.append(' fdb ' + ','.join(str(i + j) for j in range(1 + r // 6)))
                want.append((None, name_node('fdb'), ('arr',) + tuple(num(i + j) for j in range(1 + r // 6))))
            elif k == 4:
                src.append('%d fcb %s$%x' % (i, '0' * 0, x))
                want.append((num(int(str(i), 10)), name_node('fcb'), ('arr', num(x))) if i and not str(i).startswith('0') else (num(0), name_node('fcb'), ('arr', num(x))))
            elif k == 5:
                src.append(' fcc "%s",%d' % ('t' * (1 + r), r))
                want.append((None, name_node('fcc'), ('arr', ('text', ('str', S_('t' * (1 + r)))), num(r))))
            elif k == 6:
                src.append(' ' * (1 + r) + 'nop')
                want.append((None, name_node('nop'), None))
            else:
                src.append('')
                want.append((None, None, None))
        keep, ctx.M.max_steps = ctx.M.max_steps, 60e6
        try:
            run(ctx, rep, '\n'.join(src) + '\n', [lines_case('documented reading', [], want)])
        finally:
            ctx.M.max_steps = keep
    return go


def obligations(ctx, tier):
    ctx.need('grammar_parse_file', 'error_print_list')
    out = []
    deep = tier == 'thorough'
    D = lambda *r: (lambda i: list(r))
    dec = lambda i: [(49, 57)] if i == 0 else [(48, 57)]
    hexr = D((48, 57), (65, 70), (97, 102))
    forms = [('decimal', '', 10, dec, 6 if deep else 4, 18, D((50, 55))),
             ('octal @', '@', 8, D((48, 55)), 6 if deep else 5, 20, D((50, 55))),
             ('octal 0', '0', 8, D((48, 55)), 6 if deep else 5, 20, D((50, 55))),
             ('binary %', '%', 2, D((48, 49)), 10 if deep else 6, 63, D((49, 49))),
             ('binary 0b', '0b', 2, D((48, 49)), 10 if deep else 6, 63, D((49, 49))),
             ('hex $', '$', 16, hexr, 4 if deep else 3, 15, D((50, 55))),
             ('hex 0x', '0x', 16, hexr, 4 if deep else 3, 15, D((50, 55)))]
    for nm, pre, base, r, k, kl, rl in forms:
        for label in (False, True):
            for n in range(1, k + 1):
                out.append(('%s, %d digits%s' % (nm, n, ', label' if label else ''), literal(pre, base, n, r, label)))
            for n in range(k + 1, kl + 1):
                out.append(('%s, %d digits%s' % (nm, n, ', label' if label else ''), literal(pre, base, n, rl, label)))
    out.append(('decimal 0', one(' fdb 0,00,1\n', fdb(num(0), num(0), num(1)))))
    for s, v in (('$7fffffffffffffff', (1 << 63) - 1), ('9223372036854775807', (1 << 63) - 1), ('@777777777777777777777', (1 << 63) - 1),
                 ('$FFFFFFFF', 0xffffffff), ('4294967296', 1 << 32), ('2147483648', 1 << 31), ('%' + '1' * 32, 0xffffffff), ('0x80000000', 1 << 31)):
        out.append(('literal ' + s, one(' fdb %s,1\n' % s, fdb(num(v), num(1)))))
        out.append(('label ' + s, one('%s\n' % s, [(num(v), None, None)])))
    for label in (False, True):
        for close in (False, True):
            out.append(('quoted%s%s' % (' closed' if close else '', ' label' if label else ''), quoted(close, label)))
    for s, v in (('1.5', 1.5), ('.5', .5), ('5.', 5.0), ('10.25', 10.25), ('0.125', .125), ('007.75', 7.75), ('123456.0', 123456.0), ('08.5', 8.5)):
        out.append(('float ' + s, one(' fdb %s,1\n' % s, fdb(('float', v), num(1)))))
    for f in ('label', 'opcode', 'arg'):
        for first in (True, False):
            out.append(('name character %s %s' % (f, 'first' if first else 'later'), name_char(f, first)))
    for isa in (0, 1):
        out.append(('words pc?, isa %d' % isa, pcr(isa)))
        for n in (1, 2, 3) if deep else (1, 2):
            out.append(('word of %d letters, isa %d' % (n, isa), word(n, isa)))
    for n in range(1, 5):
        out.append(('back reference, %d digits' % n, local('', 'bB', 'back', n)))
        out.append(('forward reference, %d digits' % n, local('', 'fF', 'fwd', n)))
    for d in '"/':
        for n in range(1, 4 if deep else 3):
            out.append(('string %s %d' % (d, n), string(d, n)))
    out.append(('escape', escape()))
    for f in ('label', 'opcode', 'arg', 'paste', 'string'):
        for form in ('\\n', '\\{n}', '&{n}') + (('&n',) if f in ('label', 'opcode', 'string') else ()):
            if f == 'paste' and form == '\\n' or True:
                out.append(('variable %s in %s' % (form, f), interp(f, form)))
    X = ('reg', REGS['X'])
    Y = ('reg', REGS['Y'])
    at = lambda n, a: ('attr', n, a)
    ops = [('#5', at(num(5), 'immediate')), ('<<5', at(num(5), '5bit')), ('<5', at(num(5), '8bit')), ('>5', at(num(5), '16bit')), ('# 5', at(num(5), 'immediate')),
           ('# <5', None), ('<', ('back', 0)), ('>', ('fwd', 0)), ('x', X), ('X', X), ('x+', at(X, 'postinc')), ('x++', at(X, 'postinc2')), ('-x', at(X, 'predec')),
           ('--x', at(X, 'predec2')), ('x-', at(X, 'postdec')), ('x +', at(X, 'postinc')), ('- x', at(X, 'predec')), ('[5]', ('arr', num(5))), ('[5,x]', ('arr', num(5), X)),
           ('[,x++]', ('arr', ('empty',), at(X, 'postinc2'))), ('[,--y]', ('arr', ('empty',), at(Y, 'predec2'))), ('[x,[y,5],7]', ('arr', X, ('arr', Y, num(5)), num(7))),
           ('*', ('pc',)), ('-5', ('op', ord('-'), num(5))), ('!5', ('op', ord('!'), num(5))), ('~5', ('op', ord('~'), num(5))), ('+5', ('op', ord('+'), num(5))),
           ('(5)', num(5)), ('foo', name_node('foo')), ('foo.bar_9', name_node('foo.bar_9')), ('"a b"', ('text', ('str', S_('a b')))), ('/a"b/', ('text', ('str', S_('a')), ('str', S_('"')), ('str', S_('b')))),
           ('"a/b"', ('text', ('str', S_('a')), ('str', S_('/')), ('str', S_('b')))), ('"a;b"', ('text', ('str', S_('a;b')))), ('"a&&b"', ('text', ('str', S_('a')), ('str', S_('&')), ('str', S_('b')))),
           ('"a&b"', ('text', ('str', S_('a')), ('str', S_('&')), ('str', S_('b')))), ("';", num(59)), ("' ", num(32)), ('0b1', num(1)), ('0b', ('back', 0)), ('1b', ('back', 1)), ('<1f', at(('fwd', 1), '8bit')),
           ('0xb', num(11)), ('$b', num(11)), ('>>5', None), ('', ('empty',)), ('5:', None), ('pcr', ('reg', REGS['PCR'])), ('PC', ('reg', REGS['PC']))]
    for s, t in ops:
        if t is None:
            continue
        out.append(('operand %s' % s, one(' fdb %s\n' % s if s else ' fdb ,\n', fdb(t) if s else fdb(t, t))))
        if s:
            out.append(('operand %s between others' % s, one(' fdb 1 , %s , 2\n' % s, fdb(num(1), t, num(2)))))
            out.append(('operand %s then comment' % s, one(' fdb 1,%s,y ; , 7\nfoo\n' % s, fdb(num(1), t, Y) + [(name_node('foo'), None, None)])))
    N = name_node
    A5 = ('arr', num(5))
    lay = [('foo lda #5\n', [(N('foo'), N('lda'), ('arr', at(num(5), 'immediate')))]), ('foo\n', [(N('foo'), None, None)]), ('foo lda\n', [(N('foo'), N('lda'), None)]),
           (' lda\n', [(None, N('lda'), None)]), ('\tlda\t5\t\n', [(None, N('lda'), A5)]), ('foo\tlda  5 ; c\n', [(N('foo'), N('lda'), A5)]), ('\n \n\t\n', [(None, None, None)] * 3),
           ('* foo\n lda 5\n', [(None, None, None), (None, N('lda'), A5)]), ('; foo\n  ; bar\n  * baz\n', [(None, None, None)] * 3), ('foo ; bar\n', [(N('foo'), None, None)]), ('foo;bar\n', [(N('foo'), None, None)]),
           (' lda;bar\n', [(None, N('lda'), None)]), (' lda ;bar\n', [(None, N('lda'), None)]), ('foo lda ; bar\n', [(N('foo'), N('lda'), None)]),
           (' lda 5;x\n', [(None, N('lda'), A5)]), (' lda 5\r\n ldb 5\r\n', [(None, N('lda'), A5), (None, N('ldb'), A5)]), ('foo\r\n', [(N('foo'), None, None)]), (' lda\r\n', [(None, N('lda'), None)]),
           ('\r\n lda 5\r\n', [(None, None, None), (None, N('lda'), A5)]), (' fcc "a"\r\n', [(None, N('fcc'), ('arr', ('text', ('str', S_('a')))))]),
           (' lda 5', [(None, N('lda'), A5)]), ('foo', [(N('foo'), None, None)]), (' lda', [(None, N('lda'), None)]), (' lda 5 ; no newline', [(None, N('lda'), A5)]),
           ('! nop\n', [(num(0), N('nop'), None)]), ('1 nop\n', [(num(1), N('nop'), None)]), ('017 nop\n', [(num(15), N('nop'), None)]), ('$1f nop\n', [(num(31), N('nop'), None)]),
           (' end\n lda 5\n', [(None, N('end'), None)]), (' END 5\nfoo\n', [(None, N('END'), A5)]), ('foo End\nbar\n', [(N('foo'), N('End'), None)]), ('x nop\n', None), ('end nop\n lda 5\n', [(N('end'), N('nop'), None), (None, N('lda'), A5)]),
           (' lda end\n ldb 5\n', [(None, N('lda'), ('arr', N('end'))), (None, N('ldb'), A5)]), (' endx\n ldb 5\n', [(None, N('endx'), None), (None, N('ldb'), A5)]),
           (' lda 5 a comment\n ldb 5\n', [(None, N('lda'), A5), (None, N('ldb'), A5)]), (' rts\n; "\n ldb 5\n', [(None, N('rts'), None), (None, None, None), (None, N('ldb'), A5)])]
    for s, t in lay:
        if t is not None:
            out.append(('layout %r' % s, one(s, t)))
    good = [(None, N('lda'), A5)]
    for s in (':', '+', 'foo: nop', '=', '(', ' :', ' 5', ' "x"', 'x nop', '1.5 nop', 'foo 5', ' $', ',', ' #5'):
        out.append(('misfit %r' % s, bad(s + '\n lda 5\n', 1, good)))
        out.append(('misfit later %r' % s, bad(' lda 5\n\n%s\n lda 5\n' % s, 3, good + good)))
    for s, v in (('2147483647', (1 << 31) - 1), ('4294967295', (1 << 32) - 1), ('65536', 65536), ('99999', 99999), ('10000000000', 10 ** 10), ('1000000000000000000', 10 ** 18), ('$10000', 65536), ('$100000000', 1 << 32), ('$deadbeefcafe', 0xdeadbeefcafe), ('0x7FFFFFFF', (1 << 31) - 1), ('@37777777777', (1 << 32) - 1), ('@40000000000', 1 << 32), ('%' + '1' * 40, (1 << 40) - 1), ('0b1' + '0' * 50, 1 << 50), ('0' + '7' * 15, (1 << 45) - 1)):
        out.append(('literal ' + s, one(' fdb %s,1\n' % s, fdb(num(v), num(1)))))
        out.append(('label ' + s, one('%s\n' % s, [(num(v), None, None)])))
        out.append(('back and forward reference ' + s, one(' fdb %sB,%sf\n' % (s, s), fdb(('back', v), ('fwd', v)))) if s.isdigit() and s[0] != '0' else None)
    for z in (20, 100, 300) + ((9000,) if deep else ()):
        for pre, base in (('$', 16), ('%', 2), ('@', 8), ('0x', 16), ('0b', 2), ('0', 8)):
            t = pre + '0' * z + '101'
            out.append(('%s, %d leading zeros' % (pre, z), one(' fdb %s,1\n%s nop\n' % (t, t), [(None, name_node('fdb'), ('arr', num(int('101', base)), num(1))), (num(int('101', base)), name_node('nop'), None)])))
    for s, v in (('123456789.25', 123456789.25), ('1234567890123.5', 1234567890123.5), ('0.0000001', 1e-7), ('1000000000000000000000000.0', 1e24), ('4294967296.5', 4294967296.5), ('3.14159265358979323846', 3.14159265358979323846), ('.1', .1), ('0.1000000000000000055511151231257827', .1)):
        out.append(('float ' + s, one(' fdb %s,1\n' % s, fdb(('float', v), num(1)))))
    for n, longest, sh in ((300, 40, 0), (100, 300, 1), (40, 1500, 2), (20, 5000, 3), (400, 60, 4)) + (((12, 20000, 5), (1000, 80, 6)) if deep else ()):
        out.append(('source of %d lines of up to %d characters' % (n, longest), big_source(n, longest, sh)))
    return [o for o in out if o]
