"""Abstract interpretation of the whole program over sets of source files with INCLUDE and END lines in every kind of
position and state, with abstract values entering as symbols defined on the command line.  The bytes of the output
(DragonDOS or SREC form where the execution address matters) must be those of the text with the included file in its
place, the section being the one before; lines after END must have no effect whatever they contain; nesting up to the
limit is accepted and beyond it diagnosed; a missing file is diagnosed where it is reached and only there."""
import embed
from outfmt import *
from c24 import ok, fails, image_of, L, number, NUM
import c11, c12, c13, c25
import prove
RULE = 'subject = set of source files; obligation = (trace partition, class of digits)'
TECHNIQUE = 'abstract interpretation of main over file sets with abstract command line values'

CS, ALTS = c25.digits(2, lambda i: [(48, 57)])
VAL = [(list(gs), c25.value(vs, 16)) for gs, vs in c25.product(ALTS) if len({o for c, o in vs}) == 1]
V = ['-d', L('vv=$') + CS]
O = ['-o', 'out', 'in.s']


def same_as(files, want, argv=(), what='in place'):
    """output bytes; 'v' stands for the abstract value, an int for itself"""
    def guards():
        for g, v in VAL:
            yield g, B([mk(64, v.c + x[1], dict(v.t)) if type(x) is tuple else v if x == 'v' else x for x in want])
    files = {k: x for k, x in files.items()}
    return ok(V + list(argv) + O, None, files, what, guards=guards)


def F(main, **inc):
    d = {'in.s': main}
    d.update(inc)
    return d


PLACE = {
    'between lines': (F(' fcb 1\n include "i"\n fcb 3\n', i=' fcb vv\n'), [1, 'v', 3]), 'first': (F(' include "i"\n fcb 3\n', i=' fcb vv\n'), ['v', 3]), 'last': (F(' fcb 1\n include "i"\n', i=' fcb vv\n'), [1, 'v']),
    'only': (F(' include "i"\n', i=' fcb vv\n'), ['v']), 'empty file': (F(' fcb vv\n include "i"\n fcb 2\n', i=''), ['v', 2]), 'comments only': (F(' fcb vv\n include "i"\n fcb 2\n', i='* nothing\n\n ; here\n'), ['v', 2]),
    'no final newline': (F(' fcb 1\n include "i"\n fcb 3', i=' fcb vv'), [1, 'v', 3]), 'twice': (F(' include "i"\n fcb 3\n include "i"\n', i=' fcb vv\n'), ['v', 3, 'v']), 'twice in a row': (F(' include "i"\n include "i"\n', i=' fcb vv\n'), ['v', 'v']),
    'two files': (F(' include "i"\n include "j"\n', i=' fcb vv\n', j=' fcb 7\n'), ['v', 7]), 'nested': (F(' fcb 1\n include "i"\n fcb 5\n', i=' fcb 2\n include "j"\n fcb 4\n', j=' fcb vv\n'), [1, 2, 'v', 4, 5]),
    'same file from two places': (F(' include "i"\n include "j"\n', i=' fcb 1\n include "j"\n', j=' fcb vv\n'), [1, 'v', 'v']), 'labelled INCLUDE': (F(' fcb 1\nlab include "i"\n fcb lab\n', i=' fcb vv\n'), [1, 'v', 1]),
    'slashes': (F(' include /i/\n', i=' fcb vv\n'), ['v']), 'upper case': (F(' INCLUDE "i"\n', i=' fcb vv\n'), ['v']), 'mixed case': (F(' Include "i"\n', i=' fcb vv\n'), ['v']), 'LIB': (F(' lib "i"\n', i=' fcb vv\n'), ['v']), 'LIB upper': (F(' LIB "i"\n', i=' fcb vv\n'), ['v']),
    'named by a symbol': (F('nm equ "i"\n include nm\n', i=' fcb vv\n'), ['v']), 'comment after': (F(' include "i" ; comment\n', i=' fcb vv\n'), ['v']), 'path': ({'in.s': ' include "dir/i.s"\n', 'dir/i.s': ' fcb vv\n'}, ['v']), 'name with space': ({'in.s': ' include "a b"\n', 'a b': ' fcb vv\n'}, ['v']),
    'names differing in case': (F(' include "i"\n include "I"\n', i=' fcb vv\n', I=' fcb 9\n'), ['v', 9]), 'prefix name': (F(' include "i"\n include "ii"\n', i=' fcb vv\n', ii=' fcb 9\n'), ['v', 9]),
    # state on entry
    'location on entry': (F(' org $100\n fcb 1\n include "i"\n', i=' fdb *\n fcb vv\n'), [1, 1, 1, 'v']), 'symbol on entry': (F('aa equ vv\n include "i"\n', i=' fcb aa\n'), ['v']), 'SET on entry': (F('aa set 1\n include "i"\naa set vv\n include "i"\n', i=' fcb aa\n'), [1, 'v']),
    'direct page on entry': (F(' setdp $12\n include "i"\n', i=' lda $1234\n fcb vv\n'), [0x96, 0x34, 'v']), 'section on entry': (F(' section "b"\n org $1234\n include "i"\n', i=' fdb *\n fcb vv\n'), [0x12, 0x34, 'v']),
    'macro on entry': (F('mac macro\n fcb \\1+1\n endm\n include "i"\n', i=' mac vv\n'), [('v', 1)]), 'forward reference out': (F(' include "i"\naa equ vv\n', i=' fcb aa\n'), ['v']), 'local label on entry': (F('1 fcb vv\n include "i"\n', i=' bra 1B\n'), ['v', 0x20, 0xfd]),
    'local label ahead': (F(' include "i"\n1 fcb vv\n', i=' bra 1F\n'), [0x20, 0, 'v']), 'PUT on entry': (F(' org $1000\n put $2000\n fcb 1\n include "i"\n', i=' fdb *\n fcb vv\n'), [1, 0x10, 1, 'v']),
    # state on exit
    'location on exit': (F(' org $100\n include "i"\n fdb *\n', i=' fcb vv\n'), ['v', 1, 1]), 'origin on exit': (F(' include "i"\n fdb *\n', i=' org $2000\n fcb vv\n'), ['v', 0x20, 1]), 'symbol on exit': (F(' include "i"\n fcb aa\n', i='aa equ vv\n'), ['v']),
    'label on exit': (F(' fcb 1\n include "i"\n fcb aa\n', i='aa fcb vv\n'), [1, 'v', 1]), 'forward reference in': (F(' fcb aa\n include "i"\n', i='aa equ vv\n'), ['v']), 'SET on exit': (F('aa set 1\n include "i"\n fcb aa\n', i='aa set vv\n'), ['v']),
    'direct page on exit': (F(' include "i"\n lda $1234\n fcb vv\n', i=' setdp $12\n'), [0x96, 0x34, 'v']), 'macro on exit': (F(' include "i"\n mac vv\n', i='mac macro\n fcb \\1+1\n endm\n'), [('v', 1)]), 'local label on exit': (F(' include "i"\n bra 1B\n', i='1 fcb vv\n'), ['v', 0x20, 0xfd]),
    # sections are restored
    'section restored': (F(' section "aa"\n org $1000\n fcb 1\n include "i"\n fdb *\n', i=' section "bb"\n org $1003\n fcb vv\n'), [1, 0x10, 1, 'v']), 'section restored, nested': (F(' section "aa"\n org $1000\n fcb 1\n include "i"\n fdb *\n', i=' section "bb"\n org $1003\n fcb vv\n include "j"\n fcb 6\n', j=' section "cc"\n org $1005\n fcb 7\n'), [1, 0x10, 1, 'v', 6, 7]),
    'default section restored': (F(' org $1000\n fcb 1\n include "i"\n fdb *\n', i=' data\n org $1003\n fcb vv\n'), [1, 0x10, 1, 'v']), 'section continued': (F(' section "aa"\n org $1000\n fcb 1\n section "bb"\n org $1004\n include "i"\n fcb 5\n', i=' section "aa"\n fcb 2,vv\n section "bb"\n fcb 4\n'), [1, 2, 'v', 0, 4, 5]),
    'section restored, at the same address': (F(' org $1000\n fcb 1\n include "i"\n fdb *\n', i=' section "bb"\n org $1003\n fcb vv\n org $1001\n put $2000\n'), [1, 0x10, 1, 'v']),
    'section restored, nothing in it': (F(' section "aa"\n include "i"\n fcb 1\n', i=' section "bb"\n org $1001\n fcb vv\n org $1000\n setdp 9\n section "aa"\n org $1000\n section "bb"\n'), [1, 'v']),
    'section of the file again': (F(' org $1000\n fcb 1\n include "i"\n section "bb"\n fdb *\n', i=' section "bb"\n org $1001\n fcb vv\n'), [1, 'v', 0x10, 2]),
    # conditionals and macros
    'in a taken branch': (F(' if vv+1\n include "i"\n else\n fcb 2\n endif\n', i=' fcb vv\n'), ['v']), 'in a skipped branch': (F(' if 0\n include "i"\n endif\n fcb vv\n', i=' fcb 1\n'), ['v']), 'missing file in a skipped branch': (F(' if 0\n include "nosuch"\n else\n fcb vv\n endif\n'), ['v']),
    'conditional inside': (F(' include "i"\n fcb 3\n', i=' if 0\n fcb 1\n else\n fcb vv\n endif\n'), ['v', 3]), 'conditional inside, skipped': (F(' if 0\n include "i"\n fcb 3\n endif\n fcb vv\n', i=' endif\n'), ['v']), 'IF inside does not reach outside': (F(' if 1\n include "i"\n fcb 2\n else\n fcb 9\n endif\n', i=' if 0\n fcb 1\n endif\n fcb vv\n'), ['v', 2]),
    'in a macro': (F('mac macro\n fcb 1\n include "i"\n fcb 2\n endm\n mac\n mac\n', i=' fcb vv\n'), [1, 'v', 2, 1, 'v', 2]), 'named by a macro argument': (F('mac macro\n include "\\1"\n endm\n mac i\n mac j\n', i=' fcb vv\n', j=' fcb 8\n') if False else F('mac macro\n include \\1\n endm\n mac "i"\n mac "j"\n', i=' fcb vv\n', j=' fcb 8\n'), ['v', 8]),
    'missing file in an unused macro': (F('mac macro\n include "nosuch"\n endm\n fcb vv\n'), ['v']), 'guarded against repetition': (F(' include "i"\n include "i"\n include "j"\n', i='once set once+1\n if once==1\n fcb vv\n endif\n', j=' fcb 3\n') if False else F('n set 0\n include "i"\n include "i"\n', i='n set n+1\n if n==1\n fcb vv\n endif\n'), ['v']),
    'recursion bounded by a condition': (F('n set 0\n include "i"\n', i='n set n+1\n fcb n\n if n<3\n include "i"\n endif\n fcb vv\n'), [1, 2, 3, 'v', 'v', 'v']),
    # END
    'END stops': (F(' fcb vv\n end\n fcb 2\n'), ['v']), 'END stops unknown instructions': (F(' fcb vv\n end\n frob\n'), ['v']), 'END stops syntax errors': (F(' fcb vv\n end\n+ + +\n(((\n'), ['v']), 'END stops redefinitions': (F('aa fcb vv\n end\naa fcb 3\n'), ['v']),
    'END stops INCLUDE': (F(' fcb vv\n end\n include "nosuch"\n'), ['v']), 'END stops ENDIF': (F(' fcb vv\n end\n endif\n'), ['v']), 'END upper': (F(' fcb vv\n END\n fcb 2\n'), ['v']), 'END mixed': (F(' fcb vv\n eNd\n fcb 2\n'), ['v']), 'labelled END': (F(' fcb vv\n fcb lab\nlab end\n fcb 2\n'), ['v', 2]),
    'END with comment': (F(' fcb vv\n end ; done\n fcb 2\n'), ['v']), 'END with blank': (F(' fcb vv\n end   \n fcb 2\n'), ['v']), 'END first': (F(' end\n fcb 2\n'), []), 'END twice': (F(' fcb vv\n end\n end\n fcb 2\n'), ['v']), 'END without newline': (F(' fcb vv\n end'), ['v']), 'END and CR LF': (F(' fcb vv\r\n end\r\n fcb 2\r\n'), ['v']),
    'END of an included file': (F(' fcb 1\n include "i"\n fcb 3\n', i=' fcb vv\n end\n fcb 2\n'), [1, 'v', 3]), 'END of a nested file': (F(' include "i"\n fcb 3\n', i=' fcb 1\n include "j"\n fcb 2\n', j=' fcb vv\n end\n+ + +\n'), [1, 'v', 2, 3]), 'END after INCLUDE': (F(' include "i"\n end\n fcb 2\n', i=' fcb vv\n'), ['v']),
    'END included twice': (F(' include "i"\n include "i"\n fcb 3\n', i=' fcb vv\n end\n fcb 2\n'), ['v', 'v', 3]), 'END with operand stops': (F(' fcb vv\n end 5\n fcb 2\n'), ['v']), 'label named end': (F('end fcb vv\n fcb 2\n'), ['v', 2]), 'operand named end': (F(' fcb end\nend equ vv\n fcb 2\n'), ['v', 2]), 'ENDIF does not end': (F(' if 1\n fcb vv\n endif\n fcb 2\n'), ['v', 2]), 'ENDM does not end': (F('m macro\n endm\n fcb vv\n'), ['v']),
    'macro whose name starts with END': (F('ends macro\n fcb 4\n endm\n fcb vv\n ends\n fcb 2\n'), ['v', 4, 2]), 'END in a comment': (F('* end\n fcb vv ; end\n fcb 2\n'), ['v', 2]), 'END in a string': (F(' fcc "end"\n fcb vv\n'), [0x65, 0x6e, 0x64, 'v']),
}


def exec_(files, v, put=0, d=(1,), argv=()):
    """v: None (default), value, ('v', k)"""
    def guards():
        for g, x in VAL:
            yield g, (mk(64, x.c + v[1], dict(x.t)) if type(v) is tuple else v)
    return files, guards, put, list(d), list(argv)


EXEC = {
    'constant': (F(' fcb 1\n end $1234\n'), 0x1234), 'value': (F(' fcb 1\n end vv\n'), ('v', 0)), 'expression': (F(' fcb 1\n end vv+$1000\n'), ('v', 0x1000)), 'label': (F(' fcb 1\nlab equ vv\n end lab\n'), ('v', 0)), 'forward reference': (F(' include "i"\nlab equ vv\n fcb 1\n', i=' end lab\n'), ('v', 0)), 'address': (F(' fcb 1\nlab end lab\n'), 1),
    'current address': (F(' fcb 1\n end *\n'), 1), 'none': (F(' fcb 1\n'), None), 'no operand': (F(' fcb 1\n end\n'), None), 'zero': (F(' org $1000\n fcb 1\n end 0\n'), 0, 0x1000), 'highest': (F(' fcb 1\n end $ffff\n'), 0xffff), 'in an included file': (F(' fcb 1\n include "i"\n', i=' end vv\n'), ('v', 0)),
    'in an included file, then END': (F(' fcb 1\n include "i"\n end\n', i=' end vv\n'), ('v', 0)), 'after an included file with END': (F(' include "i"\n fcb 1\n end vv\n', i=' end\n'), ('v', 0)), 'second END ignored': (F(' fcb 1\n end vv\n end 5\n'), ('v', 0)), 'first END without operand': (F(' fcb 1\n end\n end 5\n'), None),
    'in a taken branch': (F(' fcb 1\n include "i"\n', i=' if 1\n include "j"\n endif\n', j=' end vv\n'), ('v', 0)), 'in a skipped branch': (F(' fcb 1\n if 0\n include "i"\n endif\n', i=' end vv\n'), None), 'changing between passes': (F(' fcb 1\n include "i"\n end\n', i=' end lab\n') if False else F(' fcb 1\nlab equ lac\nlac equ lad\nlad equ vv\n end lab\n'), ('v', 0)),
    'upper case': (F(' fcb 1\n END vv\n'), ('v', 0)), 'SET symbol': (F(' fcb 1\nss set 3\nss set vv\n end ss\n'), ('v', 0)), 'SET symbol changed later': (F(' fcb 1\nss set vv\n include "i"\nss set 9\n', i=' end ss\n'), ('v', 0)),
}


def exec_subject(files, v, put, fmt, argv=()):
    def guards():
        for g, x in VAL:
            yield g, image_of(fmt, mk(64, x.c + v[1], dict(x.t)) if type(v) is tuple else v, put, [1])
    flag = {'dragondos': '-D', 'coco': '-C', 'srec': '-S', 'hex': '-H'}[fmt]
    return ok(V + [flag] + list(argv) + O, None, files, 'execution address', guards=guards)


def nest(n, kind, end=' fcb vv\n'):
    """n programs inside each other: the main file, then files or macro calls"""
    files = {}
    if kind == 'files':
        for i in range(1, n):
            files['f%d' % i] = ' fcb %d\n' % i + (' include "f%d"\n' % (i + 1) if i < n - 1 else end)
        files['in.s'] = ' include "f1"\n' if n > 1 else end
        return files
    if kind == 'macros':
        s = ''
        for i in range(1, n):
            s += 'mac%d macro\n fcb %d\n%s endm\n' % (i, i, ' mac%d\n' % (i + 1) if i < n - 1 else end)
        return {'in.s': s + (' mac1\n' if n > 1 else end)}
    s = ''
    for i in range(1, n):
        body = ' fcb %d\n' % i + ((' mac%d\n' % (i + 1) if (i + 1) % 2 else ' include "f%d"\n' % (i + 1)) if i < n - 1 else end)
        if i % 2:
            s += 'mac%d macro\n%s endm\n' % (i, body)
        else:
            files['f%d' % i] = body
    files['in.s'] = s + (' mac1\n' if n > 1 else end)
    return files


BAD = {
    'missing file': F(' include "nosuch"\n'), 'missing file in an included file': F(' include "i"\n', i=' include "nosuch"\n'), 'missing file in a macro': F('m macro\n include "nosuch"\n endm\n m\n'), 'missing file in a taken branch': F(' if 1\n include "nosuch"\n endif\n'), 'missing among present': F(' include "i"\n include "nosuch"\n include "i"\n', i=' nop\n'),
    'name in another case': F(' include "I"\n', i=' nop\n'), 'includes itself': F(' include "in.s"\n'), 'includes itself through another': F(' include "i"\n', i=' include "in.s"\n'), 'mutual inclusion': F(' include "i"\n', i=' include "j"\n', j=' include "i"\n'), 'recursive macro and file': F('m macro\n include "i"\n endm\n m\n', i=' m\n'), 'no operand': F(' include\n'), 'number': F(' include 5\n'), 'register': F(' include x\n'), 'undefined symbol': F(' include foo\n'),
    'syntax error inside': F(' include "i"\n', i='+ + +\n'), 'unknown instruction inside': F(' include "i"\n', i=' frob\n'), 'unbalanced IF inside': F(' include "i"\n endif\n', i=' if 1\n'), 'unbalanced ENDIF inside': F(' if 1\n include "i"\n', i=' endif\n'), 'ELSE inside for an outer IF': F(' if 1\n include "i"\n endif\n', i=' else\n'), 'unfinished macro inside': F(' include "i"\n endm\n', i='m macro\n'), 'redefinition inside': F('aa equ 1\n include "i"\n', i='aa equ 2\n'),
    'label included twice': F(' include "i"\n include "i"\n', i='aa fcb 2\n'), 'END with two operands': F(' end 1,2\n'), 'END of undefined symbol': F(' end nowhere\n'), 'error before END': F(' frob\n end\n'), 'IF not closed before END': F(' if 1\n end\n endif\n'), 'macro not closed before END': F('m macro\n end\n endm\n'), 'END is not LABEL': F('end\n frob\n'), 'END of an included file only': F(' include "i"\n frob\n', i=' end\n'), 'ENDIF is not END': F(' if 1\n endif\n frob\n'),
}


def obligations(ctx, tier):
    ctx.need('main', 'assemble_prog', 'prog_new_file')
    deep = tier == 'thorough'
    out = []
    for n, (f, w) in PLACE.items():
        out.append(('include/end: %s' % n, same_as(f, w)))
    for n, x in EXEC.items():
        f, v, put = x if len(x) == 3 else x + (0,)
        for fmt in ('dragondos', 'coco', 'srec', 'hex'):
            out.append(('exec address: %s, %s' % (n, fmt), exec_subject(f, v, put, fmt)))
        out.append(('exec address overridden by a number: %s' % n, exec_subject(f, 0x4321, put, 'dragondos', ['-e', '$4321'])))
        out.append(('exec address overridden by a symbol: %s' % n, exec_subject(f, ('v', 0), put, 'hex', ['-e', 'vv'])))
        out.append(('exec address overridden by zero: %s' % n, exec_subject(f, 0, put, 'srec', ['-e', '0'])))
    # the last pass allowed is the one that settles END's operand
    for k in (-1, 0, 1, 2) + ((5, 9) if deep else ()):
        f = F(' org $1000\n fcb 1\n end vv\n') if k < 0 else F(' org $1000\n include "i"\n' + ''.join('e%d equ e%d\n' % (i, i - 1) for i in range(k, 0, -1)) + 'e0 equ vv\n', i=' fcb 1\n end e%d\n' % k)
        out.append(('exec address in the last pass allowed, %d references' % (k + 1), exec_subject(f, ('v', 0), 0x1000, 'coco', ['-P', str(k + 3)])))
        out.append(('exec address overridden after the last pass allowed, %d references' % (k + 1), exec_subject(f, 0x4321, 0x1000, 'coco', ['-P', str(k + 3), '-e', '$4321'])))
        out.append(('exec address overridden by a symbol after the last pass allowed, %d references' % (k + 1), exec_subject(f, ('v', 0), 0x1000, 'coco', ['-e', 'vv', '-P', str(k + 3)])))
    for n in range(1, 9):
        for k in ('files', 'macros', 'both'):
            out.append(('%d programs nested: %s' % (n, k), same_as(nest(n, k), list(range(1, n - 1)) + ([n - 1] if n > 1 else []) + ['v'] if False else list(range(1, n)) + ['v'])))
            if n > 1:
                out.append(('%d programs nested, ending with END: %s' % (n, k), same_as(nest(n, 'files', ' fcb vv\n end\n frob\n'), list(range(1, n)) + ['v'])))
    for n in (9, 10, 12):
        for k in ('files', 'macros', 'both'):
            out.append(('%d programs nested: %s' % (n, k), fails(O, nest(n, k, ' fcb 1\n'))))
    for n, f in BAD.items():
        out.append(('diagnosed: %s' % n, fails(O, f)))
    # an unused nesting error goes away; after the deep part the depth is free again
    f = nest(8, 'files', ' fcb vv\n')
    f['in.s'] = f['in.s'] * 3
    out.append(('repeated nesting', same_as(f, (list(range(1, 8)) + ['v']) * 3)))
    # a file given on the command line and included
    out.append(('included and on the command line', ok(['-o', 'out', 'a.s', 'b.s'], B([1, 2, 2]), {'a.s': ' fcb 1\n include "b.s"\n', 'b.s': ' fcb 2\n'})))
    out.append(('END of the first of two files', ok(['-D', '-o', 'out', 'a.s', 'b.s'], image_of('dragondos', 0x1234, 0, [1, 2]), {'a.s': ' fcb 1\n end $1234\n fcb 9\n', 'b.s': ' fcb 2\n'})))
    out.append(('END of the second of two files', ok(['-D', '-o', 'out', 'a.s', 'b.s'], image_of('dragondos', 0x1234, 0, [1, 2]), {'a.s': ' fcb 1\n end\n fcb 9\n', 'b.s': ' fcb 2\n end $1234\n'})))
    # names of any length, differing anywhere
    for n in (7, 15, 31, 32, 63, 64, 127, 255, 256, 1000) + ((511, 512, 2047, 2048, 4095, 9000) if deep else ()):
        b = 'p' * n
        out.append(('names of %d characters differing at the end' % n, same_as(F(' include "%s1"\n include "%s2"\n include "%s"\n' % (b, b, b), **{b + '1': ' fcb vv\n', b + '2': ' fcb 9\n', b: ' fcb 5\n'}), ['v', 9, 5])))
        out.append(('names of %d characters differing at the start' % n, same_as(F(' include "1%s"\n include "2%s"\n' % (b, b), **{'1' + b: ' fcb vv\n', '2' + b: ' fcb 9\n'}), ['v', 9])))
    # any number of files
    for n in (12, 40) + ((13, 130, 257) if deep else ()):
        fs = {'f%d' % i: ' fcb %d\n' % (i & 255) for i in range(n)}
        fs['f0'] = ' fcb vv\n'
        seq = list(range(n)) + list(range(0, n, 3))
        out.append(('%d files' % n, same_as(F(''.join(' include "f%d"\n' % i for i in seq), **fs), ['v' if i == 0 else i & 255 for i in seq])))
        out.append(('a file included %d times' % n, same_as(F(' include "i"\n' * n, i=' fcb vv\n'), ['v'] * n)))
        out.append(('a file included %d times by a macro' % n, same_as(F('mac macro\n include "\\1"\n fcb 7\n endm\n' + ' mac "i"\n' * n, i=' fcb vv\n'), ['v', 7] * n)))
    # any number of lines before and after
    for n in (1, 7, 40) + ((150, 300) if deep else ()):
        out.append(('%d lines around' % n, same_as(F(' fcb 1\n' * n + ' include "i"\n' + ' fcb 2\n' * n, i=' fcb vv\n' * n), [1] * n + ['v'] * n + [2] * n)))
    out += embed.subjects('C26', tier)
    return out
