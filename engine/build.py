"""Compile the current /repo working tree to one LLVM module (text), offline.

Nothing is executed: bison/flex regenerate the parser and scanner from the current
grammar.y / lex.l into a scratch directory, clang -O0 + mem2reg gives IR.
"""
import os, subprocess, tempfile, shutil, glob, sys, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
# what gcc 13 only warns about
LENIENT = ['-Wno-error=' + x for x in ('implicit-function-declaration', 'implicit-int', 'int-conversion', 'incompatible-function-pointer-types', 'incompatible-pointer-types', 'return-type', 'return-mismatch')]
HERE = os.path.dirname(os.path.abspath(__file__))

GNULIB_C = ['gl_list.c', 'gl_avltree_list.c', 'gl_xlist.c', 'c-strcasecmp.c', 'hash.c', 'bitrotate.c', 'c-ctype.c']


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s%s' % (' '.join(cmd), p.stdout[-2000:], p.stderr[-4000:]))
    return p.stdout


def build(scratch, want_xml=False):
    """returns path of the linked, mem2reg'ed textual module"""
    src = os.path.join(REPO, 'src')
    gl = os.path.join(scratch, 'gnulib')
    os.makedirs(gl)
    # hand-written gnulib sources only; wrappers generated by configure are not needed on this libc
    generated = {'stdio.h', 'stdlib.h', 'string.h', 'unistd.h', 'wchar.h', 'limits.h', 'alloca.h', 'getopt.h',
                 'errno.h', 'stdarg.h', 'stdbool.h', 'stddef.h', 'stdint.h', 'float.h', 'getopt-cdefs.h', 'config.h'}
    for f in glob.glob(os.path.join(REPO, 'gnulib', '*.[ch]')):
        b = os.path.basename(f)
        if b in generated or b.endswith('.in.h'):
            continue
        shutil.copy(f, os.path.join(gl, b))
    gen = os.path.join(scratch, 'gen')
    os.makedirs(gen)
    _run(['bison', '-d', '-o', os.path.join(gen, 'grammar.c')] +
         (['--xml=' + os.path.join(gen, 'grammar.xml')] if want_xml else []) +
         [os.path.join(src, 'grammar.y')])
    _run(['flex', '-o', os.path.join(gen, 'lex.c'), os.path.join(src, 'lex.l')])
    units = []
    for f in sorted(glob.glob(os.path.join(src, '*.c'))):
        if os.path.basename(f) in ('grammar.c', 'lex.c'):
            continue
        units.append(f)
    units += [os.path.join(gen, 'grammar.c'), os.path.join(gen, 'lex.c')]
    units += sorted(glob.glob(os.path.join(REPO, 'dt101', '*.c')))
    units += [os.path.join(gl, c) for c in GNULIB_C if os.path.exists(os.path.join(gl, c))]
    # a private copy of src headers without the generated grammar.h
    inc = os.path.join(scratch, 'inc')
    os.makedirs(inc)
    for f in glob.glob(os.path.join(src, '*.h')):
        if os.path.basename(f) != 'grammar.h':
            shutil.copy(f, inc)
    # .c units live beside a possibly stale grammar.h: compile private copies
    csrc = os.path.join(scratch, 'csrc')
    os.makedirs(csrc)
    flags = ['-I' + os.path.join(HERE, 'shim'), '-I' + gen, '-I' + inc, '-I' + os.path.join(REPO, 'dt101'), '-I' + gl,
             '-w', *LENIENT, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-emit-llvm', '-c',
             '-fno-stack-protector', '-D_GNU_SOURCE=1', '-D__NO_CTYPE=1']
    outs = []

    def one(f):
        b = os.path.basename(f)
        o = os.path.join(scratch, os.path.basename(os.path.dirname(f)) + '_' + b + '.bc')
        if os.path.dirname(f) == src:
            c = os.path.join(csrc, b)
            with open(f) as fh:
                text = fh.read()
            with open(c, 'w') as fh:
                fh.write('#line 1 "src/%s"\n' % b)
                fh.write(text)
            f = c
        _run([LLVM + '/clang'] + flags + [f, '-o', o], cwd=scratch)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, units))
    linked = os.path.join(scratch, 'all.bc')
    libc = os.path.join(scratch, 'libc.bc')
    _run([LLVM + '/clang', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-ffreestanding',
          '-fno-builtin', '-emit-llvm', '-c', os.path.join(HERE, 'shim', 'libc.c'), '-o', libc], cwd=scratch)
    own = os.path.join(scratch, 'own.bc')
    _run([LLVM + '/llvm-link', '-o', own] + outs)
    _run([LLVM + '/llvm-link', '--only-needed', '-o', linked, own, libc])
    final = os.path.join(scratch, 'all.ll')
    _run([LLVM + '/opt', '-S', '-passes=mem2reg', linked, '-o', final])
    return final, units


if __name__ == '__main__':
    d = sys.argv[1]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    import time
    t = time.time()
    print(build(d, True)[0], time.time() - t)
