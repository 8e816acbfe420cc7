"""Abstract interpretation of the assembler and of the whole program for faults only: any access outside an object, to a
freed or never written one, null or wild pointer, division by zero or overflow, undefined shift, failed assertion or
abort, double free, use of a closed stream, format mismatch, unbounded recursion and loops that never end.
(a) Every directive and instruction with every combination of operand kinds, values being any 64-bit integer or any
floating point number.  (b) Every operator over every pair of kinds.  (c) Two placement lines in succession with any
values, followed by data, whole run with every output.  (d) Source text of arbitrary characters in every scanner
state, long lines, unterminated constructs.  (e) Macro calls with arbitrary positional variables.  (f) Whole runs of
awkward programs and options with everything written and freed.  (g) Every call with a format string passes arguments
that match it."""
import itertools
from common import *
from c10 import run_passes, lab
from c09 import take
import prove
import ir as IR
RULE = 'subject = (line form) | (pair of placement lines) | text form | program | format call site; obligation = (operand kinds, trace partition)'
TECHNIQUE = 'abstract interpretation for run-time faults and termination over all operand kinds and values; lint of format call sites'

UNDEF = ('id', ['nowhere'])
KINDS = {
    'int': lambda ctx, j: ('int', v64('v%d' % j)), 'float': lambda ctx, j: ('float', fin('f%d' % j)), 'str': lambda ctx, j: ('str', [inp('s%d_%d' % (j, i), 8, 1, 255) for i in range(2)]), 'empty str': lambda ctx, j: ('str', ''),
    'A': lambda ctx, j: reg('A'), 'X': lambda ctx, j: reg('X'), 'D': lambda ctx, j: reg('D'), 'PC': lambda ctx, j: reg('PC'), 'S': lambda ctx, j: reg('S'), 'W': lambda ctx, j: reg('W'), 'PCR': lambda ctx, j: reg('PCR'), 'CC': lambda ctx, j: reg('CC'),
    'empty': lambda ctx, j: ('empty',), '[]': lambda ctx, j: ('arr', []), '[int]': lambda ctx, j: ('arr', [('int', v64('v%d' % j))]), '[int,reg]': lambda ctx, j: ('arr', [('int', v64('v%d' % j)), reg('Y')]), '[[int]]': lambda ctx, j: ('arr', [('arr', [('int', v64('v%d' % j))])]),
    '[empty,reg]': lambda ctx, j: ('arr', [('empty',), reg('W')]), '[undef]': lambda ctx, j: ('arr', [UNDEF]), 'undef': lambda ctx, j: UNDEF, '#int': lambda ctx, j: imm(ctx, ('int', v64('v%d' % j))), '#float': lambda ctx, j: imm(ctx, ('float', fin('f%d' % j))), '#str': lambda ctx, j: imm(ctx, ('str', 'ab')), '#reg': lambda ctx, j: imm(ctx, ('id', ['isreg'])), '#undef': lambda ctx, j: imm(ctx, UNDEF),
    '<int': lambda ctx, j: a8(ctx, ('int', v64('v%d' % j))), '>int': lambda ctx, j: a16(ctx, ('int', v64('v%d' % j))), '<<int': lambda ctx, j: a5(ctx, ('int', v64('v%d' % j))), 'X+': lambda ctx, j: attr(ctx, reg('X'), 'node_attr_postinc'), 'Y++': lambda ctx, j: attr(ctx, reg('Y'), 'node_attr_postinc2'), '-U': lambda ctx, j: attr(ctx, reg('U'), 'node_attr_predec'), '--S': lambda ctx, j: attr(ctx, reg('S'), 'node_attr_predec2'), 'X-': lambda ctx, j: attr(ctx, reg('X'), 'node_attr_postdec'),
    '*': lambda ctx, j: ('pc',), 'back': lambda ctx, j: ('back', 3), 'fwd': lambda ctx, j: ('fwd', 3), 'expression': lambda ctx, j: ('op', ord('+'), ('int', v64('v%d' % j)), ('pc',)), 'positional': lambda ctx, j: ('id', [('interp', '1')]), 'text': lambda ctx, j: ('text', ['a', ('interp', '2')]), 'symbol': lambda ctx, j: ('id', ['isint']),
}
SOME = ('int', 'float', 'str', 'A', 'X', 'empty', '[int]', '#int', 'undef', 'X+', '[]')
MID = [k for k in KINDS if k not in ('D', 'S', 'CC', '[int,reg]', '[empty,reg]', '[undef]', '#float', '#undef', '<<int', '--S', 'back', 'fwd', 'text', '>int', 'Y++', 'expression')]
FEW = ('int', 'A', 'X', 'empty', '#int', 'undef')
LEAST = ('int', 'X', 'empty', 'undef')
DIRECTIVES = ('fcb', 'fcc', 'fcn', 'fcs', 'fcv', 'fci', 'fdb', 'fqb', 'fill', 'rzb', 'rmb', 'org', 'put', 'setdp', 'section', 'include', 'includebin', 'end', 'equ', 'set', 'export', 'if', 'elsif', 'else', 'endif', 'macro', 'endm', 'code', 'data', 'bss', 'ram', 'auto', 'page', 'opt', 'nam', 'ttl', 'mac', 'unknown')
COUNT = {'rzb': 0, 'fill': 1, 'align': 0}      # operand that says how often something is done: see fills() and align() for its values
LONG = ('int', 'float', '#int', '#float', '<int', '>int', '<<int', 'expression', 'symbol')


def fault_free(ctx, rep, ps, what):
    from check import _confirm
    if not ps:
        rep.gap('%s: no partition' % what)
    for p in ps:
        if p.status in ('alarm', 'loop'):
            v = p.value if p.status == 'alarm' else ('endless loop', '')
            _confirm(ctx, rep, p.st, p, None, (), '%s: assembler fault: %s: %s at %s' % (what, v[0], v[1], p.loc), ctx.seed, 400)
        else:
            rep.ok()
            rep.cases[p.status] = rep.cases.get(p.status, 0) + 1


PRE = [(('id', ['isreg']), 'equ', [('reg', REGS['X'])]), (('id', ['isint']), 'equ', [('int', v64('sym'))]), (('id', ['mac']), 'macro', None), (None, 'fcb', [('id', [('interp', '1')])]), (None, 'endm', None)]


def line(m, n, isa, kinds, first=None, label=None):
    def go(ctx, rep):
        ctx.M.files = {b'ab': list(b' nop\n'), b'a': [], b'': []}
        ctx.M.closed_world = True
        for c in itertools.product(kinds, repeat=n):
            if first is not None and c[0] not in first:
                continue
            args = [KINDS[k](ctx, j) if k != 'str' or not m.startswith('include') else ('str', 'ab') for j, k in enumerate(c)]
            if m in COUNT and len(c) > COUNT[m] and c[COUNT[m]] in LONG:
                continue
            ls = [(label, m, args if n else None)]
            fault_free(ctx, rep, asm(ctx, (PRE if m == 'mac' else PRE[:2] if '#reg' in c or 'symbol' in c else []) + ls, isa=isa, listing=1), '%s %s' % (m, ','.join(c) or 'without operands'))
    return go


def labels(m, args):
    L = {'local %d' % v: ('int', v) for v in (0, 1, -1, 65536, MAX64, MIN64)}
    L.update({'float': ('float', 1.5), 'list': ('arr', [('int', 1)]), 'string': ('str', 'ab'), 'empty string': ('str', ''), 'undefined': UNDEF, 'name': ('id', ['lab']), 'pasted': ('id', ['a', ('interp', '1')]), 'existing': ('id', ['isint']), 'register': ('reg', REGS['X']), 'macro': ('id', ['mac']), 'text': ('text', ['ab'])})

    def go(ctx, rep):
        for n, l in L.items():
            for pass_ in (0, 1):
                fault_free(ctx, rep, asm(ctx, PRE + [(l, m, args)], isa=1, listing=1, pass_=pass_), 'label %s, %s' % (n, m))
    return go


def align(ctx, rep):
    for v in (0, 1, -1, 2, 3, 4, 255, 65537, 1 << 31, 1 << 32, MAX64, MIN64, MIN64 + 1, -65536, -2, 1 << 62):
        for f in ((), (('int', v64('fill')),), (('float', fin('f')),)):
            for pre in ([], [(None, 'org', [('int', 1)])], [(None, 'org', [('int', 0xffff)])], [(None, 'put', [('int', 0xfffe)])]):
                fault_free(ctx, rep, asm(ctx, pre + [(None, 'align', [('int', v)] + list(f)), (None, 'fcb', [('int', 1)])]), 'align %d' % v)


def expressions(op, nargs):
    def go(ctx, rep):
        o = ctx.d.enums.get(op, None) if len(op) > 1 else ord(op)
        if o is None:
            o = ctx.d.enums[op]
        for c in itertools.product(KINDS if nargs < 2 or ctx.tier == 'thorough' else MID, repeat=nargs) if nargs < 3 else itertools.product(SOME, ('int', 'undef', 'str', 'X'), ('int', 'undef', 'float', '[int]')):
            e = ('op', o) + tuple(KINDS[k](ctx, j) for j, k in enumerate(c))
            fault_free(ctx, rep, asm(ctx, (PRE[:2] if '#reg' in c or 'symbol' in c else []) + [(None, 'fdb', [e])]), '%s of %s' % (op, ', '.join(c)))
    return go


PLACE = {
    'org': lambda j: (None, 'org', [('int', v64('p%d' % j))]), 'put': lambda j: (None, 'put', [('int', v64('p%d' % j))]), 'rmb': lambda j: (None, 'rmb', [('int', v64('p%d' % j))]), 'setdp': lambda j: (None, 'setdp', [('int', v64('p%d' % j))]),
    'section': lambda j: (None, 'section', [('str', 's%d' % j)]), 'fcb': lambda j: (None, 'fcb', [('int', v64('p%d' % j))]), 'org float': lambda j: (None, 'org', [('float', fin('p%d' % j))]), 'rmb float': lambda j: (None, 'rmb', [('float', fin('p%d' % j))]), 'put float': lambda j: (None, 'put', [('float', fin('p%d' % j))]), 'fdb *': lambda j: (None, 'fdb', [('pc',)]), 'bra': lambda j: (None, 'bra', [('int', v64('p%d' % j))]),
}
AFTER = [(lab('lab'), 'fcb', [('int', 1)]), (None, 'bra', [lab('lab')]), (None, 'lda', [('int', 0x1234)])]
FILLS = {'fill': lambda j: (None, 'fill', [('int', v64('b')), ('int', v64('p%d' % j))]), 'rzb': lambda j: (None, 'rzb', [('int', v64('p%d' % j))]), 'fill float': lambda j: (None, 'fill', [('int', 1), ('float', fin('p%d' % j))])}


def placement(a, b):
    def go(ctx, rep):
        ls = [PLACE[a](0), PLACE[b](1)] + AFTER
        fault_free(ctx, rep, asm(ctx, ls, listing=1), '%s then %s' % (a, b))
    return go


def placed_run(a, b, flag):
    """the whole run, everything written, for placements the assembler accepts"""
    def go(ctx, rep):
        ls = [PLACE[a](0), PLACE[b](1)] + AFTER + [(None, 'end', [('int', v64('e'))])]
        ps = run_passes(ctx, [ls], None, [flag, '-o', 'out', '-s', 'sym', '-E', 'exp'])
        fault_free(ctx, rep, ps, '%s then %s' % (a, b))
    return go


def fills(a, b):
    """counts are bounded by the 64K space: the bytes are not enumerated, ranges are"""
    def go(ctx, rep):
        for lo, hi in ((MIN64, -1), (0, 3), (0x10001, MAX64)):
            f = FILLS[a](0)
            l = (f[0], f[1], [('int', v64('p0', lo, hi)) if x[1] == v64('p0') else x for x in f[2]])
            if a.endswith('float'):
                if lo != MIN64:
                    continue
                l = (f[0], f[1], f[2][:-1] + [('float', -1e300)])
            fault_free(ctx, rep, asm(ctx, [l, PLACE[b](1)] + AFTER, listing=1), '%s then %s' % (a, b))
            fault_free(ctx, rep, asm(ctx, [PLACE[b](1), l] + AFTER, listing=1), '%s then %s' % (b, a))
    return go


# ---- text
STATES = {'first column': ('', '\n'), 'after a label': ('foo', '\n'), 'opcode': (' ', '\n'), 'inside an opcode': (' ld', '\n'), 'operand': (' fcb ', '\n'), 'after a digit': (' fcb 1', '\n'), 'after a name': (' fcb ab', '\n'), 'after an operator': (' fcb 1+', '\n'), 'in a string': (' fcc "a', '"\n'), 'in a slashed string': (' fcc /a', '/\n'), 'after a string': (' fcc "a"', '\n'),
          'after a quote': (" fcb '", '\n'), 'in a bracket': (' lda [', ']\n'), 'after a comma': (' lda 1,', '\n'), 'after an escape': (' fcc "\\', '"\n'), 'after a positional': (' fcb \\1', '\n'), 'after an ampersand': (' fcb &', '\n'), 'in braces': (' fcb \\{', '}\n'), 'after $': (' fcb $', '\n'), 'after %': (' fcb %', '\n'), 'after @': (' fcb @', '\n'), 'after a dot': (' fcb .', '\n'), 'after #': (' lda #', '\n'), 'after <': (' lda <', '\n'), 'at the end': (' nop', ''), 'at the end of an operand': (' fcb 1', ''), 'at the end in a string': (' fcc "a', ''), 'at the end in a quote': (" fcb '", ''), 'whole file': ('', ''), 'after 0': (' fcb 0', '\n'), 'after 0x': (' fcb 0x', '\n')}


def arbitrary(pre, post, n, lo=1):
    def go(ctx, rep):
        from check import _confirm
        src = list(pre.encode()) + [inp('ch%d' % i, 8, lo, 255) for i in range(n)] + list(post.encode())
        fault_free(ctx, rep, parse(ctx, src), 'text')
    return go


def text_run(src, argv=(), files=()):
    def go(ctx, rep):
        fs = {'in.s': src}
        fs.update(files)
        for fmt in ('-S', '-D'):
            fault_free(ctx, rep, run_main(ctx, [fmt, '-o', 'out', '-l', 'lst', '-s', 'sym', '-E', 'exp'] + list(argv) + ['in.s'], fs), 'whole run')
    return go


TEXTS = {
    'empty file': '', 'newline': '\n', 'spaces': '   ', 'carriage return': '\r', 'CR CR LF': ' nop\r\r\n', 'form feed': ' nop\f\n', 'tab only': '\t', 'only a label': 'foo', 'only a comment': '* c', 'unterminated string': ' fcc "abc\n nop\n', 'unterminated string at the end': ' fcc "abc', 'unterminated slashes': ' fcc /abc\n', 'quote at the end': " fcb '", 'brackets': ' lda [[[[1]]]]\n', 'unclosed bracket': ' lda [1\n', 'unclosed parenthesis': ' fdb (1+(2*3\n', 'closing parenthesis': ' fdb 1)\n',
    'deep parentheses': ' fdb ' + '(' * 60 + '1' + ')' * 60 + '\n', 'many signs': ' fdb ' + '-~' * 40 + '1\n', 'many operands': ' fcb ' + ','.join(['1'] * 200) + '\n', 'only commas': ' fcb ,,,,,,,,\n', 'many errors': '+ + +\n' * 30, 'nul bytes': ' nop\n\0 nop\n nop\n', 'nul in a string': ' fcc "a\0b"\n nop\n', 'nul first': '\0', 'high characters': ' fcc "\xff\xfe\x80"\n', 'high characters as a label': '\xe9t\xe9 nop\n', 'high characters as an instruction': ' \xe9t\xe9\n',
    'huge number': ' fdb 99999999999999999999999999\n', 'huge hexadecimal': ' fdb $' + 'f' * 60 + '\n', 'huge local label': '99999999999999999999 nop\n bra 99999999999999999999B\n', 'huge float': ' fdb 1' + '0' * 320 + '.5\n', 'tiny float': ' fdb 0.' + '0' * 320 + '1\n', 'infinity': 'a equ 1' + '0' * 300 + '.0\nfoo equ a*a\n fdb foo,-foo\n', 'not a number': 'a1 equ 1' + '0' * 300 + '.0\nfoo equ a1*a1-a1*a1\n fdb foo\n if foo\n nop\n endif\n org foo\n rmb foo\n setdp foo\n',
    'divide': ' fdb 1/0,1%0,1.0/0,0/0\n', 'smallest over -1': ' fdb (-9223372036854775807-1)/-1,(-9223372036854775807-1)%-1\n', 'shifts': ' fdb 1<<64,1>>64,1<<-1,1>>-1,1<<63,-1>>63,1<<1.5\n', 'string arithmetic': ' fdb "a"+1,"a"*"b",-"abc","a"<"b"\n', 'register arithmetic': ' fdb foo+1\nfoo equ x\n', 'register as offset': ' lda foo,x\nfoo equ y\n',
    'macro without a name': ' macro\n nop\n endm\n', 'macro with a numeric name': '1 macro\n nop\n endm\n', 'local macro name': '! macro\n endm\n', 'macro named by a pasted name': 'm macro\nq\\1 macro\n nop\n endm\n endm\n m zz\n qzz\n', 'ENDM alone': ' endm\n', 'ENDM with operand': 'm macro\n endm m\n m\n', 'unfinished macro': 'm macro\n nop\n', 'nested unfinished macro': 'm macro\nn macro\n endm\n', 'macro redefined': 'm macro\n endm\nm macro\n endm\n m\n', 'macro calling itself': 'm macro\n m\n endm\n m\n', 'mutual macros': 'm macro\n n2\n endm\nn2 macro\n m\n endm\n m\n', 'macro redefining itself': 'm macro\nm macro\n nop\n endm\n endm\n m\n m\n', 'macro in a conditional': ' if 1\nm macro\n endif\n endm\n',
    'positional outside a macro': ' fcb \\1\n', 'positional zero': 'm macro\n fcb \\0\n endm\n m 1\n', 'huge positional': 'm macro\n fcb \\{99999999999999999999}\n endm\n m 1\n', 'positional 2^32+1': 'm macro\n fcb \\{4294967297}\n endm\n m 1\n', 'positional 2^31': 'm macro\n fcb \\{2147483648}\n endm\n m 1\n', 'missing positional': 'm macro\n fcb \\2\n endm\n m 1\n m\n', 'positional of a string': 'm macro\n fcb \\1\nq\\1 nop\n endm\n m "ab"\n', 'positional of a register': 'm macro\n lda ,\\1\n endm\n m x\n m a\n', 'positional of a list': 'm macro\n lda \\1\n endm\n m [1]\n m [,x]\n', 'positional of nothing': 'm macro\n lda \\1,\\2\n endm\n m ,x\n m ,\n', 'positional in every field': 'm macro\n\\1 \\2 \\3\n endm\n m foo,fcb,1\n m "bar","nop"\n m 5,"nop"\n m 1.5,x,[1]\n',
    'string as a positional opcode': 'm macro\n \\1 \\2\n endm\n m "include","in.s"\n', 'empty positional opcode': 'm macro\n \\1\n endm\n m\n m ,\n', 'label of a float': 'm macro\nl\\1 nop\n endm\n m 1.5\n', 'label pasted of nothing': 'm macro\n\\1 nop\n endm\n m\n',
    'ELSE alone': ' else\n', 'ENDIF alone': ' endif\n', 'ELSIF alone': ' elsif 1\n', 'IF without operand': ' if\n nop\n endif\n', 'IF of an undefined symbol': ' if nowhere\n nop\n endif\n', 'IF unbalanced': ' if 1\n', 'IF nested unbalanced': ' if 1\n if 0\n else\n endif\n', 'ELSE twice': ' if 1\n else\n else\n endif\n', 'ELSIF after ELSE': ' if 0\n else\n elsif 1\n endif\n', 'IF in a macro unbalanced': 'm macro\n if 1\n endm\n m\n endif\n', 'skipped macro': ' if 0\nm macro\n endif\n endm\n endif\n',
    'EQU itself': 'foo equ foo\n', 'EQU of itself plus one': 'foo equ foo+1\n fdb foo\n', 'circular': 'foo equ bar\nbar equ foo\n', 'EQU without label': ' equ 5\n', 'EQU of a list': 'foo equ [1]\n fdb foo\n', 'EQU of a register': 'foo equ x\n fdb foo\n tfr foo,y\n', 'EQU of nothing': 'foo equ\n', 'EQU of *': 'foo equ *\n fdb foo\n', 'EQU of a string': 'foo equ "abc"\n fcc foo\n fdb foo\n', 'SET of a string': 'foo set "abc"\nfoo set foo\n', 'numeric EQU': '1 equ 5\n fdb 1B\n', 'redefined': 'foo equ 1\nfoo equ 2\n', 'EXPORT without operand': ' export\n', 'EXPORT of a number': ' export 5\n', 'EXPORT of a string': ' export "foo"\nfoo nop\n', 'EXPORT undefined': ' export nowhere\n', 'EXPORT of a list': ' export foo\nfoo equ [1,2]\n',
    'ORG beyond': ' org 70000\n nop\n', 'ORG negative': ' org -1\n nop\n', 'ORG huge': ' org $7fffffffffffffff\n nop\n', 'last byte': ' org $ffff\n nop\n', 'one past': ' org $ffff\n nop\n nop\n', 'PUT beyond': ' put $10000\n nop\n', 'RMB all': ' rmb 65536\n', 'RMB beyond': ' rmb 65537\n nop\n', 'RMB negative': ' rmb -5\n nop\n', 'RMB then ORG': ' org 5\n rmb 10\n org 0\n nop\n', 'empty section': ' section "a"\n section "b"\n nop\n', 'section without name': ' section\n nop\n', 'section named by nothing': ' section ""\n nop\n', 'section named by a number': ' section 5\n', 'overlap': ' org 1\n fcb 1,2,3\n org 2\n fcb 4\n',
    'ALIGN 0': ' align 0\n nop\n', 'ALIGN negative': ' align -4\n nop\n', 'ALIGN without operand': ' align\n', 'ALIGN at the top': ' org $fff1\n align 256\n nop\n', 'INCLUDEBIN missing': ' includebin "nosuch"\n', 'INCLUDE itself': ' include "in.s"\n', 'INCLUDE nothing': ' include ""\n', 'END in IF': ' if 1\n end\n', 'END of a register': ' nop\n end x\n', 'END of a string': ' nop\n end "a"\n', 'END of a float': ' nop\n end 1.5\n', 'END negative': ' nop\n end -1\n', 'END huge': ' nop\n end $123456789\n', 'END only': ' end\n', 'no data': 'foo equ 1\n', 'no data with END': ' end 5\n',
    'FCC of nothing': ' fcc\n fcc ,\n', 'FCS of nothing': ' fcs\n', 'FCS of a number': ' fcs 5\n', 'FCB of a string': ' fcb "abc"\n', 'FDB of a string': ' fdb "abc"\n', 'FCI of a string': ' fci "aA@[_`{"\n fcv "aA@[_`{"\n', 'FILL': ' fill 1\n fill 1,2,3\n fill ,5\n fill 1,-5\n', 'unknown instruction': ' frob 1,2\n', 'instruction as a label': 'lda lda #1\n', 'macro named as an instruction': 'lda macro\n nop\n endm\n lda #1\n', 'label only lines': 'a1\nb1\nc1\n', 'local label only': '1\n1\n bra 1B\n', 'bare !': '!\n bra <\n bra >\n', 'branch to nowhere': ' bra 1F\n bra <\n bra >\n', 'SETDP': ' setdp\n setdp -1\n setdp 256\n setdp $100000000\n setdp 1.5\n setdp "a"\n lda 5\n',
    'many labels': ''.join('l%d nop\n' % i for i in range(80)), 'many local labels': '1 nop\n bra 1B\n bra 1F\n' * 60 + '1 nop\n', 'many sections': ''.join(' section "s%d"\n org %d\n nop\n' % (i, i * 16) for i in range(40)), 'many blocks': ''.join(' org %d\n fcb 1\n' % ((i * 7919) % 60000) for i in range(60)), 'many macros': ''.join('m%d macro\n nop\n endm\n m%d\n' % (i, i) for i in range(30)),
    'long string': ' fcc "' + 'x' * 600 + '"\n', 'long comment': '*' + 'c' * 3000 + '\n nop\n', 'long label': 'l' + 'x' * 600 + ' nop\n', 'long blank': ' ' * 2000 + 'nop\n', 'long operand': ' fdb 1' + '+1' * 150 + '\n',
}
BULK = {
    'many lines': ''.join('l%d fdb l%d,*\n' % (i, i // 2) for i in range(500)), 'many definitions': ''.join('s%d equ s%d+1\n' % (i, i - 1) if i else 's0 equ 1\n' for i in range(400)), 'many forward definitions': ''.join('f%d equ %d\n' % (i, i) for i in range(400)) + ' fdb f1,f399\n',
    'many uses': 'm macro\n fcb \\1,\\2\nl\\1 equ \\2\n endm\n' + ''.join(' m %d,%d\n' % (i, i & 255) for i in range(300)), 'many definitions of macros': ''.join('m%d macro\n fcb \\1\n endm\n' % i for i in range(200)) + ' m5 1\n m199 2\n', 'many local labels far': '5 nop\n' * 300 + ' bra 5b\n', 'many exports': ''.join('e%d equ %d\n export e%d\n' % (i, i, i) for i in range(200)),
    'many conditionals': ' if 1\n' * 200 + ' nop\n' + ' endif\n' * 200, 'many skipped conditionals': ' if 0\n' * 200 + ' nop\n' + ' else\n endif\n' * 200, 'many blocks up': ''.join(' org %d\n fcb %d\n' % (i * 17, i) for i in range(250)), 'many blocks down': ''.join(' org %d\n fcb %d\n' % (60000 - i * 17, i) for i in range(250)), 'many sections more': ''.join(' section "q%d"\n org %d\n nop\n' % (i, i * 160) for i in range(200)), 'many diagnostics': ' fcb nowhere\n frob\n' * 200, 'many warnings': ' ldx <5\n' * 100,
    'operands by the thousand': ' fcb ' + ','.join(str(i & 255) for i in range(2000)) + '\n', 'long sum': ' fdb 0' + '+1' * 1200 + '\n', 'longer sum': ' fdb 0' + '+1' * 4000 + '\n', 'sum of far too many': ' fdb 0' + '+1' * 20000 + '\n', 'nested subtraction': ' fdb ' + '1-(' * 2000 + '1' + ')' * 2000 + '\n', 'parentheses': ' fdb ' + '(' * 400 + '1' + ')' * 400 + '\n', 'signs': ' fdb ' + '-~' * 300 + '1\n', 'very long line': ' fcc "' + 'abc' * 7000 + '"\n nop\n', 'very long name': 'l' + 'n' * 20000 + ' nop\n jmp l' + 'n' * 20000 + '\n', 'very long number': ' fdb ' + '0' * 20000 + '5\n nop\n', 'very long blank': ' nop' + ' ' * 20000 + '; c\n nop\n', 'very long comment': '*' + 'c' * 40000 + '\n nop\n', 'line ending at the buffer': ''.join('*' + 'd' * n + '\n nop\n' for n in (4094, 4095, 8189, 8190, 8191, 8192, 16382)), 'string of many parts': 'm macro\n fcc "' + '\\1-' * 400 + '"\n endm\n m "ab"\n', 'name of many parts': 'm macro\nq' + '\\1' * 100 + ' nop\n endm\n m 12\n', 'many arguments': 'm macro\n fcb \\{500},\\1\n endm\n m ' + ','.join(str(i & 255) for i in range(500)) + '\n',
    'many undefined': ' fdb u1,u2\n' * 100, 'many includes': ' include "inc"\n' * 100,
}
SIZES = (0, 0x3e0, 0xfe0, 0x1fe0, 0x3fe0, 0x7fe0, 0xbf00, 0xf000)


def bulk(n):
    def go(ctx, rep):
        src = BULK[n]
        keep, ctx.M.max_steps = ctx.M.max_steps, 60e6
        frames, ctx.M.max_frames = ctx.M.max_frames, 12000     # nesting of operators is limited, to less than this
        try:
            fault_free(ctx, rep, run_main(ctx, ['-S', '-o', 'out', '-l', 'lst', '-s', 'sym', '-E', 'exp', 'in.s'], {'in.s': src, 'inc': ' fcb 1,2\n'}), 'whole run')
        finally:
            ctx.M.max_steps, ctx.M.max_frames = keep, frames
    return go


def appended(n):
    """a block of n bytes growing by items of one to four and more bytes"""
    def go(ctx, rep):
        src = ' rzb %d\n' % n + ''.join(' fcb %d\n fqb 1,2\n lda #5\n fdb 1\n fqb 5\n ldy >1234\n fcc "abcde"\n fdb *,*\n' % i for i in range(12))
        keep, ctx.M.max_steps = ctx.M.max_steps, 60e6
        try:
            fault_free(ctx, rep, run_main(ctx, ['-B', '-o', 'out', 'in.s'], {'in.s': src}), 'growing block')
            fault_free(ctx, rep, run_main(ctx, ['-D', '-o', 'out', 'in.s'], {'in.s': ' org $%x\n fcb 1\n org 0\n%s' % (n + 700, src) if n < 0xf000 else ' nop\n'}), 'growing block')
        finally:
            ctx.M.max_steps = keep
    return go


ARGV = {
    'nothing': [], 'empty name': [''], 'empty output': ['-o', '', 'in.s'], 'empty listing': ['-l', '', 'in.s'], 'empty exec': ['-e', '', 'in.s'], 'empty define': ['-d', '', 'in.s'], 'define =': ['-d', '=', 'in.s'], 'define =5': ['-d', '=5', 'in.s', '-s', 'sym'], 'define twice': ['-d', 'foo=1', '-d', 'foo=2', 'in.s'], 'define with spaces': ['-d', 'a b=1', '-s', 'sym', 'in.s'], 'define .exec': ['-d', '.exec=5', '-o', 'out', '-D', 'in.s'], 'all outputs to one file': ['-o', 'f', '-l', 'f', '-s', 'f', '-E', 'f', 'in.s'], 'output over the source': ['-o', 'in.s', 'in.s'], 'same file twice': ['in.s', 'in.s'], 'empty setdp': ['--setdp', '', 'in.s'], 'huge setdp': ['--setdp', '99999999999999999999', 'in.s'], 'empty passes': ['-P', '', 'in.s'], 'missing source': ['nosuch', '-o', 'out'], 'all': ['-3v', '-S', '-e', '$1', '-o', 'o', '-l', 'l', '-E', 'e', '-s', 's', '-d', 'q=1', '--setdp', '5', '-P', '5', 'in.s'],
    'exec of a label': ['-e', 'foo', '-D', '-o', 'out', 'in.s'], 'exec of a register': ['-e', 'rr', '-D', '-o', 'out', 'in.s'], 'exec of a string': ['-e', 'ss', '-D', '-o', 'out', 'in.s'], 'exec undefined': ['-e', 'nowhere', '-C', '-o', 'out', 'in.s'],
}


def argv_run(argv):
    def go(ctx, rep):
        fault_free(ctx, rep, run_main(ctx, argv, {'in.s': 'foo nop\nrr equ x\nss equ "abc"\n export foo\n'}), 'arguments')
    return go


def argv_text(opt, n):
    """option arguments of arbitrary characters"""
    def go(ctx, rep):
        a = [inp('ar%d' % i, 8, 1, 255) for i in range(n)]
        fault_free(ctx, rep, run_main(ctx, [opt, a, '-D', '-o', 'out', '-s', 'sym', 'in.s'] if opt else [a, 'in.s'], {'in.s': 'foo nop\n'}), 'arguments')
    return go


def TY(t):
    return 'ptr' if isinstance(t, IR.TPtr) else 'double' if isinstance(t, IR.TFloat) else 'i%d' % t.w if isinstance(t, IR.TInt) else '?'


def formats(ctx, rep):
    """arguments of every call with a literal format"""
    import irq, re
    n = 0
    g = irq.call_graph(ctx, False)

    def prints(x, seen):
        return bool(re.match(r'x?v\w*printf', x)) or any(y not in seen and prints(y, seen | {x}) for y in g.get(x, ()))
    forward = {x.name for x in ctx.m.funcs.values() if x.va and x.params and isinstance(x.params[-1][0], IR.TPtr)
               and any(c.op == 'call' and any(type(a[1]) is IR.Reg and a[1].name == x.params[-1][1] for a in c.args) and prints(irq.callee(c) or '', set()) for _, _, c in irq.instrs(ctx, x.name))}
    for f, b, i in irq.instrs(ctx):
        if i.op != 'call':
            continue
        name = irq.callee(i)
        fn = ctx.m.funcs.get(name)
        decl = name in ('printf', 'fprintf', 'sprintf', 'snprintf', 'asprintf')
        if not decl and name not in forward:
            continue
        fixed = {'printf': 1, 'fprintf': 2, 'sprintf': 2, 'snprintf': 3, 'asprintf': 2}.get(name) or len(fn.params)
        args = i.args
        if len(args) < fixed:
            continue
        fmts = irq.literals(ctx, f, args[fixed - 1][1])
        where = '%s (%s)' % (f.name, ctx.d.loc(i.dbg))
        if fmts is None:
            n += 1
            if len(args) == fixed:
                rep.violation(where, '%s called with a format that need not be a literal' % name)
            continue
        got = [TY(t) for t, v in args[fixed:]]
        for s in sorted(fmts):
            n += 1
            want = []
            for m in re.finditer(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([diouxXeEfFgGcsp%])', s):
                if m.group(5) == b'%':
                    continue
                want += ['i32'] * [m.group(2), m.group(3)].count(b'*')
                c = m.group(5)
                want.append('ptr' if c in b'sp' else 'double' if c in b'eEfFgG' else 'i64' if m.group(4) in (b'l', b'll', b'j', b'z', b't') and c != b'c' else 'i32')
            if len(got) < len(want) or any(w != g for w, g in zip(want, got)):
                rep.violation(where, 'format %r is given arguments %s' % (s.decode('latin-1'), got))
            else:
                rep.ok()
                rep.cases['format'] = rep.cases.get('format', 0) + 1
    if not n:
        rep.gap('no format call found')


def obligations(ctx, tier):
    ctx.need('assemble_prog', 'main', 'grammar_parse_file')
    deep = tier == 'thorough'
    out = []
    K = list(KINDS)
    for m in DIRECTIVES + ('align',):
        l = ('id', ['lab']) if m in ('equ', 'set', 'macro') else None
        for n in (0, 1):
            out.append(('%s with %d operands' % (m, n), line(m, n, 1, K, label=l)))
        for k in range(0, len(K), 8):
            out.append(('%s with 2 operands, %d' % (m, k), line(m, 2, 1, K, K[k:k + 8], label=l) if deep else line(m, 2, 1, MID, [x for x in K[k:k + 8] if x in MID], label=l) if m in ('fill', 'fcb', 'org', 'section') else line(m, 2, 1, SOME, SOME if k == 0 else (), label=l)))
        out.append(('%s with 3 operands' % m, line(m, 3, 1, FEW if deep else LEAST, label=l)))
        out.append(('labels of %s' % m, labels(m, None)))
        out.append(('labels of %s 1' % m, labels(m, [('int', 4)])))
    out.append(('ALIGN values', align))
    seen = set()
    for isa in (0, 1):
        for m in sorted(INSTR[isa]):
            modes = tuple(sorted(INSTR[isa][m]))
            for n in (0, 1):
                out.append(('%s %s with %d operands' % (('6809', '6309')[isa], m, n), line(m, n, isa, K if deep or (isa, modes) not in seen else SOME)))
            if (isa, modes) in seen and not deep:
                continue
            seen.add((isa, modes))
            k2 = K if deep else MID
            for k in range(0, len(k2), 6):
                out.append(('%s %s with 2 operands, %d' % (('6809', '6309')[isa], m, k), line(m, 2, isa, k2, k2[k:k + 6])))
            for a in SOME:
                out.append(('%s %s with 3 operands, %s' % (('6809', '6309')[isa], m, a), line(m, 3, isa, SOME if deep else FEW, (a,)) if deep or a in FEW else None))
            if 'bit' in modes or deep:
                out.append(('%s %s with 4 operands' % (('6809', '6309')[isa], m), line(m, 4, isa, FEW if deep else LEAST)))
    out.append(('labels of an instruction', labels('nop', None)))
    for op in ('-', '+', '~', '!'):
        out.append(('operator %s' % op, expressions(op, 1)))
    for op in ('+', '-', '*', '/', '%', '&', '|', '^', '<', '>', 'SHL', 'SHR', 'LE', 'GE', 'EQ', 'NE', 'LAND', 'LOR'):
        out.append(('operator %s of two' % op, expressions(op, 2)))
    out.append(('operator ?:', expressions('?', 3)))
    for a in PLACE:
        for b in PLACE:
            out.append(('%s then %s' % (a, b), placement(a, b)))
            if deep or (a in ('org', 'put', 'rmb', 'section', 'fcb') and b in ('org', 'put', 'rmb', 'section')):
                for flag in ('-B', '-D', '-C', '-S', '-H') if deep else ('-D', '-H') if (a, b) in (('org', 'put'), ('org', 'rmb')) else ('-S',):
                    out.append(('run %s then %s %s' % (a, b, flag), placed_run(a, b, flag)))
    for a in FILLS:
        for b in ('org', 'put', 'rmb', 'section', 'org float'):
            out.append(('%s and %s' % (a, b), fills(a, b)))
    for n, (pre, post) in STATES.items():
        for k in (1,):
            out.append(('%d characters %s' % (k, n), arbitrary(pre, post, k)))
        out.append(('character or NUL %s' % n, arbitrary(pre, post, 1, 0)))
    for n, s in TEXTS.items():
        out.append(('text: %s' % n, text_run(s)))
        if deep:
            out.append(('text with 6309 and verbose: %s' % n, text_run(s, ['-3', '-v'])))
    for n in BULK:
        out.append(('bulk: %s' % n, bulk(n)))
    for n in SIZES:
        out.append(('growing from %d bytes' % n, appended(n)))
    for n, a in ARGV.items():
        out.append(('arguments: %s' % n, argv_run(a)))
    for o in ('-e', '-d', '--setdp', '-P', '-o', None):
        for k in (1, 2) if o not in ('-o', None) else (1,):
            out.append(('argument of %s, %d characters' % (o, k), argv_text(o, k)))
    out.append(('format call sites', formats))
    return [(n, f) for n, f in out if f is not None]
