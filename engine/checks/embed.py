"""Constructs in surroundings: the same lines must produce the same bytes wherever they stand - in a macro, an
included file, a conditional, another section, relocated code, a later file, a source that needs many passes,
after any kind of other construct, and with reports asked for."""
import re
from common import *


def _macro(ls):
    return ['mk0 macro'] + ls + [' endm', ' mk0']


def _plain(ls):
    return {'in.s': ls}, (), [], []


def _chain(n):
    """symbols that take n further passes to settle"""
    return [' org $0fff', ' fcb zq%d' % n] + ['zq%d equ zq%d' % (i, i - 1) for i in range(n, 0, -1)] + ['zq0 equ $ee'], [0xee]


JUNK = [' frob 1,2', 'foo foo foo', ' fcb 300,', ' lda [', ' if 0', ' else', ' fcb 9', ' endif']

# name -> function(lines) -> (files, options, bytes before, bytes after)
CONTEXTS = {
    'alone': _plain,
    'macro': lambda ls: ({'in.s': _macro(ls)}, (), [], []),
    'macro called by a macro': lambda ls: ({'in.s': ['mk1 macro', ' mk0', ' fcb $ee', ' endm', 'mk0 macro'] + ls + [' endm', ' mk1']}, (), [], [0xee]),
    'macro defined by a macro': lambda ls: ({'in.s': ['mk1 macro', 'mk0 macro'] + ls + [' endm', ' mk0', ' endm', ' mk1', ' fcb $ee']}, (), [], [0xee]),
    'macro with arguments': lambda ls: ({'in.s': ['mk0 macro', ' org $0fff', ' fcb \\2'] + ls + [' fcb \\1', ' endm', ' mk0 $ee,$dd']}, (), [0xdd], [0xee]),
    'included': lambda ls: ({'in.s': [' include "i"', ' fcb $ee'], 'i': ls}, (), [], [0xee]),
    'included by an included file': lambda ls: ({'in.s': [' include "j"', ' fcb $ee'], 'j': [' include "i"', ' fcb $dd'], 'i': ls}, (), [], [0xdd, 0xee]),
    'included by a macro': lambda ls: ({'in.s': ['mk0 macro', ' include "i"', ' endm', ' mk0', ' fcb $ee'], 'i': ls}, (), [], [0xee]),
    'macro in an included file': lambda ls: ({'in.s': [' include "i"', ' mk0', ' fcb $ee'], 'i': ['mk0 macro'] + ls + [' endm']}, (), [], [0xee]),
    'IF': lambda ls: ({'in.s': [' if 1'] + ls + [' else'] + JUNK + [' endif', ' fcb $ee']}, (), [], [0xee]),
    'ELSE': lambda ls: ({'in.s': [' if 0'] + JUNK + [' else'] + ls + [' endif', ' fcb $ee']}, (), [], [0xee]),
    'ELSIF': lambda ls: ({'in.s': [' if 0'] + JUNK + [' elsif 0'] + JUNK + [' elsif 2'] + ls + [' elsif 1'] + JUNK + [' else'] + JUNK + [' endif', ' fcb $ee']}, (), [], [0xee]),
    'IF in ELSE in IF': lambda ls: ({'in.s': [' if 1', ' if 0'] + JUNK + [' else', ' if 7'] + ls + [' endif', ' endif', ' else'] + JUNK + [' endif', ' fcb $ee']}, (), [], [0xee]),
    'IF in a macro': lambda ls: ({'in.s': _macro([' if \\1'] + ls + [' else'] + JUNK + [' endif']) [:-1] + [' mk0 1', ' mk0 0' if 0 else ' fcb $ee']}, (), [], [0xee]),
    'condition settled late': lambda ls: ({'in.s': [' if zlate==5'] + ls + [' endif', ' fcb $ee', 'zlate equ 5']}, (), [], [0xee]),
    'three passes': lambda ls: ({'in.s': _chain(1)[0] + ls}, (), _chain(1)[1], []),
    'six passes': lambda ls: ({'in.s': _chain(4)[0] + ls}, (), _chain(4)[1], []),
    'ten passes, after': lambda ls: ({'in.s': ls + _chain(8)[0]}, (), _chain(8)[1], []),
    'another section': lambda ls: ({'in.s': [' org $0fff', ' fcb $ee', ' section "other"'] + ls + [' section "CODE"']}, (), [0xee], []),
    'section visited before': lambda ls: ({'in.s': [' section "other"', ' org $0ff0', ' section "CODE"', ' org $0fff', ' fcb $ee', ' section "other"'] + ls + [' section "CODE"']}, (), [0xee], []),
    'DATA section': lambda ls: ({'in.s': [' code', ' org $0fff', ' fcb $ee', ' data'] + ls + [' bss']}, (), [0xee], []),
    'return from another section': lambda ls: ({'in.s': [' section "other"', ' org $0fff', ' fcb $ee', ' put $0fff', ' section "CODE"'] + ls}, (), [0xee], []),
    'after relocated code': lambda ls: ({'in.s': [' org $4000', ' put $0fff', ' fcb $ee'] + ls}, (), [0xee], []),
    'second file': lambda ls: ({'a.s': [' org $0fff', ' fcb $ee'], 'in.s': ls}, ('a.s',), [0xee], []),
    'first file': lambda ls: ({'in.s': ls, 'z.s': [' fcb $ee']}, ('+z.s',), [], [0xee]),
    'after an excluded block': lambda ls: ({'in.s': [' if 0'] + JUNK + ['mk9 macro', ' endm', ' include "nowhere"', ' endif'] + ls + [' fcb $ee']}, (), [], [0xee]),
    'after a macro call': lambda ls: ({'in.s': ['mk9 macro', ' org $0fff', ' fcb \\1', ' endm', ' mk9 $ee'] + ls}, (), [0xee], []),
    'after a macro never called': lambda ls: ({'in.s': ['mk9 macro'] + JUNK[:4] + [' endm', ' org $0fff', ' fcb $ee'] + ls}, (), [0xee], []),
    'after an included file': lambda ls: ({'in.s': [' include "i"'] + ls, 'i': [' org $0fff', ' fcb $ee', ' end $1000', ' frob']}, (), [0xee], []),
    'before END': lambda ls: ({'in.s': ls + [' fcb $ee', ' end', ' frob', ' endm', ' if']}, (), [], [0xee]),
    'after a higher block': lambda ls: ({'in.s': [' org $3000', ' rmb 5', ' org $0fff', ' fcb $ee'] + ls}, (), [0xee], []),
    'between comments': lambda ls: ({'in.s': sum([['* comment', ''] + [l, '; "comment'] for l in ls], []) + [' fcb $ee']}, (), [], [0xee]),
    'OPT and TTL': lambda ls: ({'in.s': [' ttl x', ' sttl y', ' opt z'] + ls}, (), [], []),
    'with a listing': lambda ls: ({'in.s': ls}, ('-l', 'lst'), [], []),
    'with every report': lambda ls: ({'in.s': [' export znone', 'znone equ 1'] + ls}, ('-l', 'lst', '-E', 'exp', '-s', 'sym', '-v'), [], []),
    'quiet': lambda ls: ({'in.s': ls}, ('-q',), [], []),
}
MACROS = [k for k in CONTEXTS if 'macro' in k]


def X(s):
    return list(bytes.fromhex(s.replace(' ', '')))


# property -> [(name, lines, bytes, contexts left out, extra options, extra files)]; every snippet sets its own origin
O = ' org $1000'
SNIP = {
    'C01': [('inherent', [O, ' mul', ' swi2', ' nop', ' sync', ' daa'], X('3d 103f 12 13 19')),
            ('two pages', [O, ' ldy #1', ' cmps #2', ' ldx #3', ' cmpu #4', ' lds #5'], X('108e0001 118c0002 8e0003 11830004 10ce0005')),
            ('6309', [O, ' ldq #$12345678', ' sexw', ' ldw #1', ' divd #2', ' comd'], X('cd12345678 14 10860001 118d02 1043'), '-3')],
    'C02': [('offsets', [O, ' lda 5,x', ' lda -16,y', ' lda 16,u', ' lda -129,s', ' lda 0,x'], X('a605 a630 a6c810 a6e9ff7f a684')),
            ('automatic', [O, ' lda ,x+', ' lda ,-y', ' lda ,u++', ' lda ,--s', ' lda [,x++]', ' lda b,x', ' lda [d,y]'], X('a680 a6a2 a6c1 a6e3 a691 a685 a6bb')),
            ('sized', [O, ' lda <5,x', ' lda >5,x', ' lda <<5,x', ' lda [5,x]', ' lda [$1234]'], X('a68805 a6890005 a605 a69805 a69f1234')),
            ('PC relative', [O, 'foo leax foo,pcr', ' leay bar,pcr', 'bar leau >foo,pcr', ' lda [foo,pcr]'], X('308cfd 318c00 338dfff6 a69cf3'), ),
            ('6309', [O, ' lda e,x', ' lda ,w', ' lda ,w++', ' lda 5,w'], X('a687 a68f a6cf a6af0005'), '-3')],
    'C03': [('back', [O, 'foo nop', ' bra foo', ' lbra foo', ' lbne foo', ' bsr foo'], X('12 20fd 16fffa 1026fff6 8df4')),
            ('forward', [O, ' beq foo', ' lbeq foo', ' lbsr foo', ' nop', 'foo rts'], X('2708 10270004 170001 12 39')),
            ('here', [O, ' bra *', ' lbra *', ' bne *+2', ' bra *-126'], X('20fe 16fffd 2600 2080')),
            ('furthest', [O, 'foo fcb 9', ' rmb 125', ' bra foo', ' bra bar', ' rmb 127', 'bar nop'], [9] + [0] * 125 + X('2080 207f') + [0] * 127 + X('12'))],
    'C04': [('transfer', [O, ' tfr a,b', ' exg x,y', ' tfr dp,cc', ' tfr d,pc'], X('1f89 1e12 1fba 1f05')),
            ('stack', [O, ' pshs a,b,x', ' puls pc,y', ' pshu s,cc', ' pulu d,dp'], X('3416 35a0 3641 370e')),
            ('6309', [O, ' addr w,d', ' tfm x+,y+', ' tfr e,f', ' cmpr x,y'], X('103060 113812 1fef 103712'), '-3')],
    'C05': [('direct page', [' setdp $12', O, ' lda $1234', ' lda $1334', ' lda <$56', ' lda >$1256', ' jsr $12ff'], X('9634 b61334 9656 b61256 9dff')),
            ('no direct page', [' setdp -1', O, ' lda $12', ' lda <$12', ' stx $34'], X('b60012 9612 bf0034')),
            ('direct page changes', [O, ' setdp 1', ' lda $0180', ' setdp 2', ' lda $0180', ' lda $0280', ' setdp 0', ' lda $80'], X('9680 b60180 9680 9680')),
            ('immediate', [O, ' lda #255', ' lda #-128', ' ldx #$1234', ' ldd #-1', " cmpa #'a"], X('86ff 8680 8e1234 ccffff 8161')),
            ('symbols', ['foo equ $1234', 'bar equ $12', O, ' lda foo', ' ldx #foo+1', ' lda #bar', ' lda <bar', ' lda >bar'], X('b61234 8e1235 8612 9612 b60012'))],
    'C06': [('arithmetic', [O, ' fdb 7+3*2,7-9,100/8,-7%4,1<<12,$ff00>>4', ' fqb ~5,3.75*4'], X('000d fffe 000c fffd 1000 0ff0 fffffffa 0000000f')),
            ('logic', [O, ' fcb 3<4,4<=4,5>6,5>=6,2==2,2!=2,0||7,1&&0,!3,5&3,5|3,5^3', ' fcb 1?2:3,0?2:3'], X('01 01 00 00 01 00 01 00 00 01 07 06 02 03'))],
    'C07': [('grouping', [O, ' fcb 1+2*3,(1+2)*3,1<<2+1,6&3==3,1|2^3&2,10-4-3,64/4/2', ' fcb 0?1:2+3,-2*3,!0+1'], X('07 09 08 00 01 03 08 05 fa 02'))],
    'C15': [('reserve', [O, ' fcb 1', ' rmb 2', ' fcb 2', ' align 8', ' fcb 3', ' align 4,$77', ' fcb 4'], X('01 0000 02 00000000 03 777777 04')),
            ('relocated', [O, ' fcb 1', ' org $8000', ' put $1001', ' fdb *', ' fdb *'], X('01 8000 8002'), 'tail'),
            ('origins', [O, ' fcb 1', 'foo org $1004', ' fcb 2', ' org $1001', ' fdb foo', ' fcb 3', ' org $1005'], X('01 1004 03 02'), 'foo'),
            ('sections', [O, ' fcb 1', ' section "sec1"', ' org $1001', ' fcb 2', ' section "sec2"', ' org $1004', ' fcb 5', ' section "sec1"', ' fcb 3,4', ' section "CODE"', ' org $1005'], X('01 02 03 04 05'))],
    'C16': [('text', [O, ' fcc "ab",13,/c"d/', ' fcs "hi"', ' fcn "yo"', ' fcv "A"'], X('61620d632264 68e9 796f00 41')),
            ('numbers', [O, " fcb 1,-1,$ff,'a,%101,@17", ' fdb 1,-1,$6162', ' fqb $12345678'], X('01 ff ff 61 05 0f 0001 ffff 6162 12345678')),
            ('blocks', [O, ' fill $a5,3', ' rzb 2', ' fcb 1', ' includebin "bin"', ' fcb 2'], X('a5a5a5 0000 01 00ff0a80 02'))],
    'C17': [('conditionals', [O, ' if 1', ' fcb 1', ' else', ' fcb 2', ' endif', ' if 0', ' fcb 3', ' elsif 1', ' fcb 4', ' elsif 1', ' fcb 5', ' else', ' fcb 6', ' endif', ' if 0', ' fcb 7', ' endif', ' fcb 8'], X('01 04 08')),
            ('nested conditionals', [O, ' if 1', ' if 0', ' fcb 1', ' else', ' if 1', ' fcb 2', ' endif', ' endif', ' elsif 1', ' if 1', ' fcb 3', ' endif', ' endif', ' fcb 4'], X('02 04')),
            ('conditional definitions', [O, ' if foo>3', ' fcb foo', ' else', ' fcb 9', ' endif', 'foo equ 7', ' if foo==7', ' fcb 2', ' endif'], X('07 02')),
            ('undefined in conditions', [O, ' if znodef', ' fcb 1', ' elsif znodef', ' fcb 2', ' else', ' fcb 3', ' endif', ' if !znodef', ' fcb 4', ' endif'], X('03 04'))],
    'C18': [('macros', [O, 'ma macro', ' fcb 1', ' endm', 'mb macro', ' ma', ' fcb 2', ' ma', ' endm', ' mb', ' ma', ' mb'], X('01 02 01 01 01 02 01')),
            ('other arguments inside', [O, 'ma macro', ' fcb \\1', ' mb \\2', ' fcb \\1', ' mb', ' fcb \\2', ' endm', 'mb macro', ' fcb 9', ' endm', ' ma 1,2', ' ma 3,4'], X('01 09 01 09 02 03 09 03 09 04'), 'pos'),
            ('arguments', [O, 'ma macro', ' fcb \\1,\\2', ' fcc "\\3"', ' lda #\\4', ' lda \\5', ' endm', ' ma 1,2,"xy",5,$99', ' ma 3,4,"z",foo,bar', 'foo equ 6', 'bar equ $1234'], X('01 02 7879 8605 b60099 03 04 7a 8606 b61234'), 'pos'),
            ('labels by arguments', [O, 'ma macro', 'la_\\1 fcb \\2', ' endm', ' ma "p",7', ' ma "q",8', ' fdb la_p,la_q'], X('07 08 1000 1001'), 'pos')],
    'C19': [('symbols', [O, ' fdb foo,bar,baz', 'foo equ bar+1', 'bar equ $10', 'baz fcb 1'], X('0011 0010 1006 01')),
            ('SET', [O, 'foo set 1', ' fcb foo', 'foo set foo+1', ' fcb foo', 'foo set foo*5', ' fcb foo'], X('01 02 0a')),
            ('labels', [O, 'foo', 'bar fcb 1', 'baz equ *', ' fdb foo,bar,baz,*'], X('01 1000 1000 1001 1001'))],
    'C20': [('local labels', [O, '1 nop', ' bra 1b', ' bra 1f', '1 nop', '1 bra 1b', ' bra 1f', '2 bra 2b', '1 bra 2b'], X('12 20fd 2000 12 20fe 2002 20fe 20fc')),
            ('several numbers', [O, ' bra 1f', ' bra 2f', '2 nop', '1 bra 2b', ' fdb 1b,12b' if 0 else ' fdb 1b'], X('2003 2000 12 20fd 1005'))],
    'C26': [('nested files', [O, ' fcb 1', ' include "n1"', ' fcb 4'], X('01 02 03 02 04'))],
}
FILES = {'n1': ' include "n2"\n fcb 3\n include "n2"\n', 'n2': ' fcb 2\n end\n frob\n', 'bin': bytes([0, 255, 10, 128])}


# constructs that may stand anywhere: their bytes do not depend on where they are
ANYWHERE = [('C01', 'inherent'), ('C01', 'two pages'), ('C02', 'offsets'), ('C02', 'automatic'), ('C02', 'sized'), ('C02', 'PC relative'), ('C03', 'back'), ('C03', 'forward'), ('C04', 'transfer'), ('C04', 'stack'),
            ('C05', 'immediate'), ('C05', 'symbols'), ('C06', 'arithmetic'), ('C06', 'logic'), ('C07', 'grouping'), ('C16', 'text'), ('C16', 'numbers'), ('C16', 'blocks'), ('C17', 'conditionals'),
            ('C17', 'nested conditionals'), ('C17', 'conditional definitions'), ('C18', 'macros'), ('C18', 'arguments'), ('C19', 'SET'), ('C20', 'local labels')]


def _renamed(lines):
    return [re.sub(r'\b(foo|bar|baz|ma|mb)\b', r'x\1', l) for l in lines]


def _neighbour(prop, name):
    """lines and bytes of a construct, without its origin"""
    for sn in SNIP[prop]:
        if sn[0] == name:
            return _renamed([l for l in sn[1] if l != O]), sn[2]


def _after(prop, name):
    x, b = _neighbour(prop, name)
    return lambda ls: ({'in.s': [' org $1000-%d' % len(b)] + x + ls}, (), b, [])


def _before(prop, name):
    x, b = _neighbour(prop, name)
    return lambda ls: ({'in.s': ls + x}, (), [], b)


def _twice(prop, name):
    """in a macro, with the neighbour on both sides"""
    x, b = _neighbour(prop, name)
    return lambda ls: ({'in.s': ['mk0 macro'] + ls + [' endm', 'mk1 macro'] + x + [' endm', ' org $1000-%d' % len(b), ' mk1', ' mk0'] + [' fcb $ee']}, (), b, [0xee])


SINGLE = len(CONTEXTS)
for _p, _n in ANYWHERE:
    CONTEXTS['after %s' % _n] = _after(_p, _n)
    CONTEXTS['before %s' % _n] = _before(_p, _n)
    if _n not in ('arguments',):
        CONTEXTS['macros, after %s' % _n] = _twice(_p, _n)


def build_(name, ctxn, lines):
    files, opts, before, after = CONTEXTS[ctxn](lines)
    return {k: '\n'.join(v) + '\n' for k, v in files.items()}, opts, before, after


def cases(prop, deep=True):
    """(title, argv, files, expected bytes)"""
    names = list(CONTEXTS)
    for si, sn in enumerate(SNIP.get(prop, ())):
        name, lines, want = sn[:3]
        flags = sn[3:]
        for c in CONTEXTS:
            if 'pos' in flags and c in ('macro with arguments', 'IF in a macro', 'macro defined by a macro', 'macro', 'macro called by a macro', 'macro in an included file') + tuple(k for k in CONTEXTS if k.startswith('macros, ')):
                continue        # \\1 would be that of the outer macro
            if not deep and names.index(c) >= SINGLE and (names.index(c) * 7 + si + int(prop[1:])) % 4:
                continue        # pairs: a quarter of them
            if name.startswith('direct page') and c in ('before symbols', 'before arguments'):
                continue        # SETDP matters to these
            files, opts, before, after = build_(name, c, lines)
            pre = [o for o in opts if not o.startswith('+') and not o.endswith('.s')]
            argv = (['-3'] if '-3' in flags else []) + pre + ['-o', 'out'] + [o for o in opts if o == 'a.s'] + ['in.s'] + [o[1:] for o in opts if o.startswith('+')]
            for k, v in FILES.items():
                if any('"%s"' % k in x for x in [*files.values(), *FILES.values()] if type(x) is str):
                    files.setdefault(k, v)
            extra = {'-l': 'lst', '-E': 'exp', '-s': 'sym'}
            yield '%s: %s' % (name, c), argv, files, before + want + after, ('out',) + tuple(extra[o] for o in opts if o in extra)


def subjects(prop, tier):
    from c24 import ok
    from outfmt import B
    return [('in context - ' + t, ok(argv, B(want), {k: list(v) if type(v) is bytes else v for k, v in files.items()}, 'the bytes of the construct', made))
            for t, argv, files, want, made in cases(prop, tier == 'thorough')]
