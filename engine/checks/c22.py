"""Abstract interpretation of whole runs writing symbols and exports files, followed by abstract
interpretation of the program's own scanner, parser and assembler over the text written (with the same
abstract values and characters in it).  (a) Symbols of every kind and value, defined in every way: the
file defines exactly the defined non-local symbols and re-assembling it gives each the same value.
(b) Macros whose bodies use every operand form, operator, prefix and string character: the exported
definition parses to the same lines.  (c) What is exported, and undefined exports."""
import itertools
from common import *
from c10 import run_passes, lab
import prove
RULE = 'subject = symbol kind and value | macro body line | set of exports; obligation = (trace partition of writing, of reading back)'
TECHNIQUE = 'abstract interpretation of writing and re-reading, relating the two syntax trees'


def tokens(p, name):
    ev = [s for s in streams(p.st) if s['name'] == name]
    return ev[0]['out'] if len(ev) == 1 else None


def with_holes(toks):
    """(bytes, {hole name: value}): numbers printed in full become identifiers"""
    out, holes = [], {}
    for t in toks:
        if t[0] == 'byte':
            out.append(t[1])
        elif t[0] == 'num' and t[1] in 'di' and t[5] == 64 and not t[3] and t[4] is None and not t[2]:
            n = 'HOLE%d_' % len(holes)
            holes[n] = t[6]
            out += list(n.encode())
        else:
            raise Gap('number printed as %r' % (t[:6],))
    return out, holes


def norm_tree(t, holes):
    if type(t) is not tuple:
        return t
    if t and t[0] in ('id', 'text') and all(type(x) is tuple for x in t[1:]):
        parts = []
        for x in t[1:]:
            x = norm_tree(x, holes)
            if parts and x[0] == 'str' and parts[-1][0] == 'str':
                parts[-1] = ('str', parts[-1][1] + x[1])
            else:
                parts.append(x)
        if t[0] == 'id' and len(parts) == 1 and parts[0][0] == 'str' and all(type(b) is int for b in parts[0][1]):
            n = bytes(parts[0][1]).decode('latin-1')
            if n in holes:
                return ('int', holes[n])
        if t[0] == 'text':
            parts = [x for x in parts if x != ('str', ())]
        return (t[0],) + tuple(parts)
    return tuple(norm_tree(x, holes) if type(x) is tuple else x for x in t)


def same(st, a, b):
    """trees equal under the facts: True / False / None"""
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            z = same(st, x, y)
            if z is False:
                return False
            if z is None:
                r = None
        return r
    if type(a) in (int, S) and type(b) in (int, S):
        if type(a) is int and type(b) is int:
            return a == b
        w = max(x.w for x in (a, b) if type(x) is S)
        return prove.equal(st, a, b, w)
    if type(a) is float or type(b) is float:
        return type(a) is type(b) and a == b
    return a == b


def macro_lines(ls, name):
    """body of a macro among parsed lines, empty lines dropped"""
    out, depth, on = [], 0, False
    for l, o, a in ls:
        op = bytes(o[1][1]).decode('latin-1').lower() if o and o[0] == 'id' and len(o) == 2 and o[1][0] == 'str' and all(type(b) is int for b in o[1][1]) else None
        nm = bytes(l[1][1]).decode('latin-1') if l and l[0] == 'id' and len(l) == 2 and l[1][0] == 'str' and all(type(b) is int for b in l[1][1]) else None
        if not on:
            if op == 'macro' and nm == name:
                on, depth = True, 1
            continue
        if op == 'macro':
            depth += 1
        if op == 'endm':
            depth -= 1
            if not depth:
                return out
        if (l, o, a) != (None, None, None):
            out.append((l, o, a))
    return None


def roundtrip(body, isa=0, assume=()):
    """body: bytes (possibly abstract) of the lines of a macro"""
    def go(ctx, rep):
        from check import _confirm
        src = list(b'mac macro\n') + list(body) + list(b' endm\n export mac\n')
        ps = run_main(ctx, ['-E', 'exp'] + (['-3'] if isa else []) + ['in.s'], {'in.s': src}, assume=assume)
        for p in ps:
            def bad(st, msg):
                _confirm(ctx, rep, st, p, None, (), msg, ctx.seed, 400)
            if p.status == 'alarm':
                bad(p.st, 'assembler fault: %s: %s at %s' % (p.value[0], p.value[1], p.loc))
                continue
            if exit_code(p) != 0:
                bad(p.st, 'the run failed: %s' % text(out_events(p.st, 'stderr'))[:200])
                continue
            toks = tokens(p, 'exp')
            if toks is None:
                bad(p.st, 'no exports file')
                continue
            bs, holes = with_holes(toks)
            for q in parse(ctx, src, isa, assume=p.st.facts()):
                if q.status == 'alarm' or cls_of(ctx, ctx.errlevel(q.st)) != 'ok':
                    raise Gap('the original does not parse')
                want = macro_lines(parsed(ctx, q), 'mac')
                rs = parse(ctx, bs, isa, assume=q.st.facts())
                for r in rs:
                    if not prove.feasible(r.st):
                        continue
                    if r.status == 'alarm':
                        bad(r.st, 'assembler fault reading back: %s' % (r.value,))
                        continue
                    got = None
                    if cls_of(ctx, ctx.errlevel(r.st)) == 'ok':
                        got = macro_lines(parsed(ctx, r), 'mac')
                    if got is None:
                        bad(r.st, 'exported text does not parse: %s' % text(toks))
                        continue
                    v = same(r.st, norm_tree(tuple(got), holes), norm_tree(tuple(want), {}))
                    if v is True:
                        rep.ok()
                        rep.cases['same lines'] = rep.cases.get('same lines', 0) + 1
                    else:
                        bad(r.st, 'exported text %s reads back as %s, was %s' % (text(toks), got, want))
    return go


# ---- symbols

def define_all(defs):
    return [d for d in defs]


def reread(ctx, p, name, names, isa=0, facts=None):
    """partitions (state after re-assembling the file written, {name: value})"""
    toks = tokens(p, name)
    if toks is None:
        return None
    bs, holes = with_holes(toks)
    out = []
    for q in parse(ctx, bs, isa, assume=facts if facts is not None else p.st.facts()):
        if not prove.feasible(q.st):
            continue
        if q.status == 'alarm' or cls_of(ctx, ctx.errlevel(q.st)) != 'ok':
            out.append((q, None))
            continue
        st = q.st
        for h, v in holes.items():
            st, k = ctx.cstr(st, h)
            st, nd = ctx.node(st, ('int', v))
            st, _ = ctx.call(st, 'symbol_set', k, nd, 0, 0)
        lines = parsed(ctx, q)
        for r in ctx.M.run(st, 'assemble_prog', [q.value, 0]):
            out.append((r, lines))
    return out


def compare_values(ctx, rep, ps, name, want, what, isa=0, only=True):
    """want: {symbol: (kind, value)}: the file defines exactly these"""
    from check import _confirm
    for p in ps:
        def bad(st, msg, d=None, v=()):
            _confirm(ctx, rep, st, p, d, v, '%s: %s' % (what, msg), ctx.seed, 400)
        if p.status == 'alarm':
            bad(p.st, 'assembler fault: %s: %s at %s' % (p.value[0], p.value[1], p.loc))
            continue
        if exit_code(p) != 0:
            bad(p.st, 'the run failed: %s' % text(out_events(p.st, 'stderr'))[:200])
            continue
        rs = reread(ctx, p, name, want, isa)
        if rs is None:
            bad(p.st, 'no file written')
            continue
        for r, lines in rs:
            t = text(tokens(p, name))[:300]
            if lines is None or r.status != 'ret' or cls_of(ctx, ctx.errlevel(r.st)) != 'ok':
                bad(r.st, 'the file written can not be assembled: %s' % t)
                continue
            got = sorted(bytes(l[1][1]).decode('latin-1') for l, o, a in lines if l and l[0] == 'id')
            if only and got != sorted(want):
                bad(r.st, 'the file defines %s, expected %s' % (got, sorted(want)))
                continue
            fine = True
            for n, (k, v) in want.items():
                x = sym_value(ctx, r.st, n)
                if x is None or x[0] != k:
                    bad(r.st, '%s reads back as %s, expected %s (%s)' % (n, x, k, t))
                    fine = False
                    break
                if k == 'string':
                    e = same(r.st, tuple(x[1]), tuple(v))
                    d = None
                elif k == 'float':
                    e, d = x[1] == v, None
                else:
                    e = prove.equal(r.st, x[1], v, 64 if k == 'int' else 32)
                    d = prove.values_differ(64 if k == 'int' else 32, x[1], v)
                if e is not True:
                    bad(r.st, '%s reads back as %s, expected %s' % (n, x, v), d, (x[1], v) if d else ())
                    fine = False
                    break
            if fine:
                rep.ok()
                rep.cases[what] = rep.cases.get(what, 0) + 1


def symbols(defs, want, what, opts=(), isa=0, both=True):
    def go(ctx, rep):
        ls = defs(ctx) if callable(defs) else defs
        o = list(opts) + (['-3'] if isa else [])
        ps = run_passes(ctx, [ls], None, ['-s', 'sym'] + o)
        compare_values(ctx, rep, ps, 'sym', want, what, isa)
        if both:
            ps = run_passes(ctx, [ls + [(None, 'export', [lab(n)]) for n in want]], None, ['-E', 'exp'] + o)
            compare_values(ctx, rep, ps, 'exp', want, what, isa)
    return go


FLOATS = [0.0, 0.5, 2.5, -2.5, 1.0, -1.0, 0.1, 0.2, 1 / 3, 2 / 3, 3.14159265358979, 1e-5, 1e-6, 1e-7, 1.5e-9, 1e-20, 1e15, 1e16, 1e17, 9007199254740993.0, 1e22, 1e23, 1e100, 1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 1.0000000000000002, 0.9999999999999999, 123456.789, 1234567.8901234567, 4294967296.5, 2 ** 53 + 2.0, 0.30000000000000004]


def string_symbol(n, specials=None):
    def go(ctx, rep):
        s = [inp('c%d' % i, 8, 1, 255) for i in range(n)] if specials is None else list(specials)
        ls = [(lab('foo'), 'equ', [('str', s)])]
        for flag, extra in (('-s', []), ('-E', [(None, 'export', [lab('foo')])])):
            ps = run_passes(ctx, [ls + extra], None, [flag, 'sym'])
            compare_values(ctx, rep, ps, 'sym', {'foo': ('string', s)}, 'string')
    return go


def internal():
    def go(ctx, rep):
        v, e = v64('v'), v64('e', 0, 0xffff)
        ls = [(lab('foo'), 'equ', [('int', v)]), (('int', 1), None, None), (('int', 7), 'equ', [('int', 5)]), (None, 'end', [('int', e)])]
        for opts in ((), ('-e', '0x1234')):
            ps = run_passes(ctx, [ls], None, ['-s', 'sym'] + list(opts))
            compare_values(ctx, rep, ps, 'sym', {'foo': ('int', v)}, 'internal symbols')
        ps = run_passes(ctx, [[(None, 'nop', None), (None, 'end', [('int', e)])]], None, ['-s', 'sym'])
        compare_values(ctx, rep, ps, 'sym', {}, 'no symbols')
        ps = run_passes(ctx, [[(None, 'nop', None)]], None, ['-s', 'sym', '-E', 'exp'])
        compare_values(ctx, rep, ps, 'sym', {}, 'no symbols')
        compare_values(ctx, rep, ps, 'exp', {}, 'no exports')
    return go


def source(n):
    def go(ctx, rep):
        src, argv, sym, exp, status = SRC[n]
        ps = run_main(ctx, ['-s', 'sym', '-E', 'exp'] + argv + ['in.s'], {'in.s': src, 'inc': 'incl equ 5\n export incl\n'})
        if status:
            for p in ps:
                if p.status == 'alarm':
                    rep.violation(p.loc, 'assembler fault: %s' % (p.value,))
                elif exit_code(p) == 0 or 'rror: ' not in text(out_events(p.st, 'stderr')):
                    rep.violation('exit', '%s: no error' % n)
                else:
                    rep.ok()
            return
        compare_values(ctx, rep, ps, 'sym', sym, n)
        compare_values(ctx, rep, ps, 'exp', exp, n)
    return go


I = lambda v: ('int', v & ((1 << 64) - 1))
SRC = {
    'labels': (' org $1000\naa nop\nbb rts\ncd equ aa+bb\n export bb\n', [], {'aa': I(0x1000), 'bb': I(0x1001), 'cd': I(0x2001)}, {'bb': I(0x1001)}, 0),
    'latest SET': ('aa set 1\naa set 2\n export aa\naa set 3\n', [], {'aa': I(3)}, {'aa': I(3)}, 0),
    'exported before its definition': (' export aa\naa equ 5\n', [], {'aa': I(5)}, {'aa': I(5)}, 0),
    'exported twice': ('aa equ 5\n export aa\n export aa,aa\n', [], {'aa': I(5)}, {'aa': I(5)}, 0),
    'several exported on one line': ('aa equ 5\nbb equ 6\ncd equ 7\n export cd,aa\n', [], {'aa': I(5), 'bb': I(6), 'cd': I(7)}, {'aa': I(5), 'cd': I(7)}, 0),
    'case': ('aa equ 5\nAA equ 6\nAa equ 7\n export AA\n', [], {'aa': I(5), 'AA': I(6), 'Aa': I(7)}, {'AA': I(6)}, 0),
    'forward references': ('aa equ bb+1\nbb equ cd+1\ncd equ 5\n export aa\n', [], {'aa': I(7), 'bb': I(6), 'cd': I(5)}, {'aa': I(7)}, 0),
    'command line': ('aa equ bb+1\n export bb\n', ['-d', 'bb=4', '-d', 'cd'], {'aa': I(5), 'bb': I(4), 'cd': I(1)}, {'bb': I(4)}, 0),
    'included': ('aa equ 1\n include "inc"\n', [], {'aa': I(1), 'incl': I(5)}, {'incl': I(5)}, 0),
    'in a macro': ('m macro\nl\\1 equ \\1\n export l\\1\n endm\n m 5\n m 6\n', [], {'l5': I(5), 'l6': I(6)}, {'l5': I(5), 'l6': I(6)}, 0),
    'in a section': (' section "a"\n org $100\naa nop\n section "b"\n org $200\nbb nop\n export aa\n', [], {'aa': I(0x100), 'bb': I(0x200)}, {'aa': I(0x100)}, 0),
    'skipped': (' if 0\naa equ 1\n export aa\n endif\nbb equ 2\n', [], {'bb': I(2)}, {}, 0),
    'local labels': ('1 nop\naa nop\n bra 1b\n export aa\n', [], {'aa': I(1)}, {'aa': I(1)}, 0),
    'END': ('aa nop\n export aa\n end aa\n', [], {'aa': I(0)}, {'aa': I(0)}, 0),
    'undefined': ('aa equ 5\n export bb\n', [], None, None, 1), 'undefined in another case': ('aa equ 5\n export AA\n', [], None, None, 1), 'undefined prefix': ('aab equ 5\n export aa\n', [], None, None, 1),
    'undefined among defined': ('aa equ 5\nbb equ 6\n export aa,nowhere,bb\n', [], None, None, 1), 'only defined when skipped': (' if 0\naa equ 5\n endif\n export aa\n', [], None, None, 1),
}


def many(n):
    def go(ctx, rep):
        v = v64('v')
        ls = [(lab('sym%d' % i), 'equ', [('int', i)]) for i in range(n)] + [(lab('target'), 'equ', [('int', v)])]
        ls += [(None, 'export', [lab('sym%d' % i) for i in range(0, n, 2)] + [lab('target')])]
        ps = run_passes(ctx, [ls], None, ['-s', 'sym', '-E', 'exp'])
        w = {'sym%d' % i: ('int', i) for i in range(n)}
        w['target'] = ('int', v)
        compare_values(ctx, rep, ps, 'sym', w, '%d symbols' % n)
        compare_values(ctx, rep, ps, 'exp', {k: x for k, x in w.items() if k == 'target' or int(k[3:]) % 2 == 0}, '%d symbols' % n)
    return go


def macros(which):
    """only the exported macros, each under its own name"""
    def go(ctx, rep):
        from check import _confirm
        names = ['ma', 'mb', 'MA', 'maa']
        src = ''.join('%s macro\n fcb %d,\\1\n endm\n' % (n, i) for i, n in enumerate(names)) + 'sym equ 9\n' + ''.join(' export %s\n' % n for n in which)
        ps = run_main(ctx, ['-E', 'exp', 'in.s'], {'in.s': src})
        for p in ps:
            if p.status == 'alarm' or exit_code(p) != 0:
                rep.violation(p.loc, 'export of %s failed' % (which,))
                continue
            toks = tokens(p, 'exp')
            for q in parse(ctx, with_holes(toks)[0]):
                ls = parsed(ctx, q) if cls_of(ctx, ctx.errlevel(q.st)) == 'ok' else []
                for i, n in enumerate(names):
                    got = macro_lines(ls, n)
                    want = macro_lines(parsed(ctx, parse(ctx, src)[0]), n) if n in which else None
                    if (got is None) != (want is None) or (got is not None and same(q.st, norm_tree(tuple(got), {}), norm_tree(tuple(want), {})) is not True):
                        rep.violation(p.loc, 'macro %s exported as %s' % (n, got))
                    else:
                        rep.ok()
    return go


NAMES = {
    'dots': ['a.exec', '_.exec', 'exec', 'a.', 'a..', 'a.b', 'a.B', 'e', 'ex'][:7],
    'underscores': ['_', '__', '_a', '_A', 'a_', '__exec', '_9'],
    'like directives': ['nop', 'equ', 'macro', 'end', 'export', 'if', 'LDA'],
    'long': ['q' * n + c for n in (15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300) for c in 'al'],
    'case': ['foo', 'FOO', 'Foo', 'fOO', 'foO'],
    'digits': ['a0', 'a1', 'a01', 'a10', 'a1B', 'a1F', 'b1b', 'f1f'],
}


def named(ns):
    def go(ctx, rep):
        v = v64('v')
        w = {n: ('int', v if i == 1 else i * 1000003) for i, n in enumerate(ns)}
        ls = [(lab(n), 'equ', [('int', w[n][1])]) for n in ns] + [(None, 'export', [lab(n)]) for n in ns]
        ps = run_passes(ctx, [ls], None, ['-s', 'sym', '-E', 'exp'])
        compare_values(ctx, rep, ps, 'sym', w, 'names')
        compare_values(ctx, rep, ps, 'exp', w, 'names')
        ls = ls[:len(ns)] + [(None, 'export', [lab(n) for n in ns[::2]])]
        ps = run_passes(ctx, [ls], None, ['-E', 'exp'])
        compare_values(ctx, rep, ps, 'exp', {n: w[n] for n in ns[::2]}, 'names')
    return go


def large(what):
    """long macros, long operand lists, long strings, deep expressions"""
    def go(ctx, rep):
        if what == 'many lines':
            t = ''.join('%s fcb %d,\\1\n' % ('l%d' % i if i % 7 == 0 else '', i) for i in range(150))
        elif what == 'many operands':
            t = ' fcb ' + ','.join(str(i * 13) for i in range(150)) + '\n fdb ' + ','.join('\\{%d}' % i for i in range(1, 60)) + '\n'
        elif what == 'long strings':
            t = ''.join(' fcc "%s"\n' % ('xyz"'[:3] * n) for n in (20, 43, 86, 200, 1000)) + ''.join(' fcc "%s\\1%s"\n' % ('a' * n, 'b' * n) for n in (60, 64, 128, 300))
        elif what == 'long names':
            t = ''.join('%s jmp %s\n' % ('q' * n, 'r' * n) for n in (31, 32, 63, 64, 128, 255, 256, 300)) + ''.join('p%s\\1%s equ p\\{12}%s\n' % ('q' * n, 'r' * n, 's' * n) for n in (31, 64, 255))
        elif what == 'deep expressions':
            t = ' fdb ' + '(1+' * 40 + '2' + ')' * 40 + '\n fdb ' + '(2-(' * 20 + '1' + '))' * 20 + '\n fdb ' + '-' * 20 + '1\n fdb ' + '+'.join(str(i) for i in range(60)) + '\n'
        elif what == 'large numbers':
            t = ' fqb 4294967295,4294967296,9223372036854775807,1099511627776,$ffffffff,$7fffffffffffffff,@777777777777,%111111111111111111111111111111111111,-9223372036854775807,2147483648\n'
        elif what == 'large local labels':
            t = '65536 bra 65536b\n2147483647 bra 2147483647f\n4294967296 bra 4294967296b\n9223372036854775807 bra 9223372036854775807b\n99999 fdb 99999b,100000f\n'
        elif what == 'many parts':
            t = ' fcc "' + ''.join('\\%d-' % (1 + i % 9) for i in range(60)) + '"\n' + 'l' + ''.join('\\{%d}z' % (1 + i) for i in range(30)) + ' nop\n'
        roundtrip(list(t.encode()))(ctx, rep)
    return go


UN = ('-', '+', '~', '!')
BIN = ('+', '-', '*', '/', '%', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '|', '^', '&&', '||')
ATOMS = ('1', '255', 'sym', '"ab"' if False else '3', '*', '1B', '2F', '\\1', 'a\\1b', '2.5', '0', "'A'", '65535')
FORMS = [
    'nop', 'lda #1', 'lda <1', 'lda >1', 'lda [1]', 'lda [sym]', 'lda ,x', 'lda 5,x', 'lda -5,x', 'lda ,x+', 'lda ,x++', 'lda ,-x', 'lda ,--x', 'lda [,x++]', 'lda [,--y]', 'lda [5,u]', 'lda a,x', 'lda b,y', 'lda d,s', 'lda [d,u]', 'lda sym,pcr', 'lda [sym,pcr]', 'lda <5,x', 'lda >5,x', 'lda <<5,x', 'lda [<5,x]', 'lda [>5,x]',
    'leax sym+1,x', 'leax sym-1,pcr', 'tfr a,b', 'exg x,y', 'pshs a,b,x', 'pshs #5', 'puls pc', 'bra 1B', 'bra 1F', 'lbne sym', 'jmp [sym]', 'ldx #sym', 'ldx #sym+1', 'ldd #-1', 'fcb 1,2,3', 'fcb ,1', 'fcb 1,,2', 'fcb 1,', 'fdb *', 'fdb *+2', 'fcb (1)', 'fcb ((1+2))*3', 'fcc "abc"', 'fcc /abc/', "fcc 'a','b'", 'fcc "a",13', 'fcc "\\1"', 'fcc "a\\1b&2c"', 'fcc "a&{12}b"', 'fcc "/"', 'fcc /a"b/',
    'fcs "xyz"', 'fcn "q"', 'include "file"', 'includebin "a/b"', 'org $1000', 'section "x"', 'rmb 5', 'fill 1,2', 'if 1', 'elsif \\1', 'else', 'endif', 'set 5', 'equ \\1', 'export sym', 'put 5', 'setdp 1', 'align 4,255', '\\1', '\\1 5', 'ld\\1 #5', 'ld&1 #5', '\\{10}x 1', 'fcb \\{10}', 'fcb &{10}', 'fcb 1&&2', 'fcb 1&\\{2}', 'fcb a&1', 'fcb a\\1b\\2c', 'fcb \\1\\2', 'fcb -\\1', 'fcb 1-\\1', 'fcb #1', 'mac 1', 'other "text",x,#5', 'bra <', 'bra >', 'other [1,2]', 'fdb 1?2:3', 'fdb (sym==1)?(2):(3)', 'fcb 0.5,.25,10.0', 'fcb %101,@17,$ff,0x1F,0b11,017',
]
LABELS = ['lab', '1', '10', '!', 'lab\\1', '\\1', '\\1lab', 'l&1', 'l&{10}q', '_x.y', 'X9']


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog', 'grammar_parse_file')
    deep = tier == 'thorough'
    out = []
    v, w = v64('v'), v64('w')
    out.append(('integer', symbols([(lab('foo'), 'equ', [('int', v)])], {'foo': ('int', v)}, 'integer')))
    out.append(('two integers', symbols([(lab('foo'), 'equ', [('int', v)]), (lab('bar'), 'set', [('int', w)])], {'foo': ('int', v), 'bar': ('int', w)}, 'two integers')))
    out.append(('label', symbols([(None, 'org', [('int', v64('o', 0, 0xff00))]), (lab('foo'), 'nop', None)], {'foo': ('int', v64('o', 0, 0xff00))}, 'label')))
    for x in (0, 1, -1, 9, 10, -10, MAX64, MIN64, MIN64 + 1, 0x7fffffff, -0x80000000, 0x80000000, 0xffffffff, -0x80000001, 65535, 65536):
        out.append(('integer %d' % x, symbols([(lab('foo'), 'equ', [('int', x)])], {'foo': ('int', x & ((1 << 64) - 1))}, 'integer')))
    for x in FLOATS:
        out.append(('floating point %r' % x, symbols([(lab('foo'), 'equ', [('float', x)])], {'foo': ('float', x)}, 'floating point')))
    for isa in (0, 1):
        for n, i in sorted(REGS.items()):
            if not isa and n.upper() in ('E', 'F', 'W', 'Q', 'V', '0'):
                continue
            out.append(('register %s, ISA %d' % (n, isa), symbols([(lab('foo'), 'equ', [('reg', i)])], {'foo': ('reg', i)}, 'register', isa=isa)))
    for n in (1,) + ((2,) if deep else ()):
        out.append(('string of %d characters' % n, string_symbol(n)))
    for s in ('/', '//', '\\', '\\\\', 'a/b\\c&d', '&1', '\\1', '&{1}', '\\{12}', 'line\nline', 'cr\r\n', '"', "'", 'it\'s "quoted"', ';', 'a;b', '\t', '\x01\x7f', 'caf\xe9', '#', '*', ' ', '  x  ', '&', '&&', '\\n', 'n', 'r', '/\n/', 'x' * 200):
        out.append(('string %r' % s, string_symbol(0, list(s.encode('latin-1')))))
    out.append(('internal symbols', internal()))
    for n in SRC:
        s = SRC[n]
        SRC[n] = s[:2] + tuple({k: (x if x[0] == 'int' else x) for k, x in d.items()} if d else d for d in s[2:4]) + s[4:]
        out.append(('source: %s' % n, source(n)))
    for n in (10, 40) + ((200,) if deep else ()):
        out.append(('%d symbols' % n, many(n)))
    for k, ns in NAMES.items():
        out.append(('names: %s' % k, named(ns)))
    for w in ('many lines', 'many operands', 'long strings', 'long names', 'deep expressions', 'large numbers', 'large local labels', 'many parts'):
        out.append((w, large(w)))
    for k in range(0, 4):
        for c in itertools.combinations(('ma', 'mb', 'MA', 'maa'), k):
            out.append(('macros %s' % (c,), macros(c)))
    B = lambda s: list((' ' + s + '\n').encode('latin-1'))
    for f in FORMS:
        out.append(('macro line "%s"' % f, roundtrip(B(f))))
    for f in ('lda ,w', 'lda ,w++', 'lda e,x', 'lda [w,y]', 'tfm x+,y+', 'tfm x-,y-', 'tfm x+,y', 'tfm x,y+', 'oim #1;sym' if False else 'oim #1,sym', 'aim #2,5,x', 'band a.1,sym.2' if False else 'band a,1,2,sym', 'addr x,y', 'ldq #$12345678', 'lda [,w++]', 'tfr 0,x' if False else 'tfr v,x'):
        out.append(('macro line "%s" (6309)' % f, roundtrip(B(f), 1)))
    for l in LABELS:
        for f in ('', ' nop', ' fcb 1', ' equ 5'):
            out.append(('macro line "%s%s"' % (l, f), roundtrip(list((l + f + '\n').encode()))))
    for o in UN:
        for a in ATOMS:
            out.append(('macro operand %s%s' % (o, a), roundtrip(B('fdb %s%s' % (o, a)))))
        for o2 in UN:
            out.append(('macro operand %s%s1' % (o, o2), roundtrip(B('fdb %s%s1,%s(%s1)' % (o, o2, o, o2)))))
    for o in BIN:
        for a in ATOMS:
            for b in (ATOMS if deep else ('1', '\\1', '*', '2F')):
                out.append(('macro operand %s%s%s' % (a, o, b), roundtrip(B('fdb %s%s%s' % (a, o, b)))))
        for o2 in BIN:
            out.append(('macro operand 1%s2%s3' % (o, o2), roundtrip(B('fdb 1%s2%s3,(1%s2)%s3,1%s(2%s3)' % (o, o2, o, o2, o, o2)))))
        for u in UN:
            out.append(('macro operand %s1%s%s2' % (u, o, u), roundtrip(B('fdb %s1%s%s2,%s(1%s2)' % (u, o, u, u, o)))))
    out.append(('macro of several lines', roundtrip(list(b' lda #\\1\n* comment\n\n1 bne 1B\nlab\\2 equ 5 ; comment\n if \\3\n fcc "x\\1"\n else\n nop\n endif\n'))))
    out.append(('empty macro', roundtrip([])))
    out.append(('macro defining a macro', roundtrip(list(b'in macro\n fcb \\1\n endm\n nop\n'))))
    ch = lambda n: [inp('ch%d' % i, 8, 0x20, 0xff) for i in range(n)]
    for q in '"/':
        for n in (1,) + ((2,) if deep else ()):
            out.append(('%d characters in %s' % (n, q), roundtrip(list(b' fcc ' + q.encode()) + ch(n) + list(q.encode() + b'\n'), assume=[('nlin', c.c - ord(x), c.t, 0) for c in ch(n) for x in (q, '\\', '&')] if False else ())))
    for s in ('\\\\', '\\n', '\\r', '\\/', '\\&', '\\"', 'a\\\\b', '\\\\1', '\\&1', '\\\\n', '&&', '&', '& 1', '&a'):
        out.append(('escape %s in a string' % s, roundtrip(B('fcc "%s"' % s))))
    dig = [inp('dg%d' % i, 8, 0x30, 0x39) for i in range(3)]
    out.append(('decimal digits', roundtrip(list(b' fcb 1') + dig + [10])))
    hx = [inp('hx%d' % i, 8, 0x30, 0x39) for i in range(2)]
    out.append(('hexadecimal digits', roundtrip(list(b' fcb $') + hx + list(b'+sym\n'))))
    return out
