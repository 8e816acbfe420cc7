"""Two parts.  (1) Every state of the LALR automaton bison derives from the current grammar is examined:
wherever a completed binary (unary, ternary) operation meets an operator, the automaton must shift or
reduce as the documented precedence table orders.  Since the parser decides only by state and lookahead this
fixes the grouping of expressions of any length and depth.  (2) The scanner, the parse loop and the
semantic actions are interpreted abstractly (from IR) over source text containing every pair and triple of operators, every
unary / parenthesised / ternary combination, every kind of operand and every context an expression may occur in;
the resulting syntax tree must be the documented one."""
import os, subprocess, tempfile, shutil
import xml.etree.ElementTree as ET
import build
import embed
from common import *
RULE = 'subject = (automaton state) and (operator sequence, spacing, context); obligation = (state, rule, lookahead) and trace partition'
TECHNIQUE = 'conflict-resolution check of every state of the LALR automaton (bison --xml) plus abstract interpretation of scanner, parser and actions over all operator combinations'

LEVELS = [['*', '/', '%'], ['+', '-'], ['<<', '>>'], ['<', '<=', '>', '>='], ['==', '!='], ['&'], ['^'], ['|'], ['&&'], ['||']]
PREC = {o: 20 - i for i, l in enumerate(LEVELS) for o in l}
BIN = [o for l in LEVELS for o in l]
UN = ['+', '-', '!', '~']
TOK = {'<<': 'SHL', '>>': 'SHR', '<=': 'LE', '>=': 'GE', '==': 'EQ', '!=': 'NE', '&&': 'LAND', '||': 'LOR'}
NAME = {TOK.get(o, "'%s'" % o): o for o in BIN}


def code(ctx, op):
    if op in TOK:
        if TOK[op] not in ctx.d.enums:
            from drv import AnchorMissing
            raise AnchorMissing('token %s' % TOK[op])
        return ctx.d.enums[TOK[op]]
    return ord(op)


# ---------------------------------------------------------------- reference: precedence climbing over a token list

def ref(ctx, toks):
    """toks: operators and ('leaf', tree); returns the documented tree"""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def un():
        t = nxt()
        if t == '(':
            e = tern()
            assert nxt() == ')'
            return e
        if t in UN and isinstance(t, str):
            return ('op', ord(t), un())
        return t[1]

    def bi(lim):
        l = un()
        while isinstance(peek(), str) and peek() in PREC and PREC[peek()] >= lim:
            o = nxt()
            l = ('op', code(ctx, o), l, bi(PREC[o] + 1))
        return l

    def tern():
        c = bi(0)
        if peek() == '?':
            nxt()
            a = tern()
            assert nxt() == ':'
            return ('op', ord('?'), c, a, tern())
        return c
    e = tern()
    assert pos[0] == len(toks)
    return e


LEAF = {'ka': name_node('ka'), 'kb': name_node('kb'), 'kc': name_node('kc'), 'kd': name_node('kd'),
        '7': ('int', 7), '$1F': ('int', 31), '2.5': ('float', 2.5), '3b': ('back', 3), '4f': ('fwd', 4),
        '*': ('pc',), '"x"': ('text', ('str', S_('x'))), "'q": ('int', ord('q')), '&{1}': ('id', ('interp', S_('1'))), '%101': ('int', 5),
        '0': ('int', 0), '1': ('int', 1), '2': ('int', 2), '0.5': ('float', 0.5), '65535': ('int', 65535)}


def toks_of(seq):
    """['ka', '+', 'kb'] -> tokens; a leaf '*' is written ('*',)"""
    out = []
    for x in seq:
        if isinstance(x, tuple):
            out.append(('leaf', LEAF[x[0]]))
        elif x in LEAF and x != '*':
            out.append(('leaf', LEAF[x]))
        else:
            out.append(x)
    return out


def text_of(seq, sp):
    return sp.join(x[0] if isinstance(x, tuple) else x for x in seq)


CTX = {'': lambda t: t, '#': lambda t: ('attr', t, 'immediate'), '<': lambda t: ('attr', t, '8bit'), '>': lambda t: ('attr', t, '16bit'),
       '<<': lambda t: ('attr', t, '5bit')}


def seqs(group, sp=' ', pre=''):
    """one obligation parses a file with one line per sequence"""
    def go(ctx, rep):
        src = ''
        want = []
        for s in group:
            e = ref(ctx, toks_of(s))
            src += ' fdb %s\n' % (pre + text_of(s, sp))
            want.append((None, name_node('fdb'), ('arr', CTX[pre](e))))
        def one(text, w):
            rep.cur = text.strip()
            compare(ctx, rep, parse(ctx, text), [Case('documented grouping', [], cls='ok', lines=w)], parse_obs(ctx), seed=ctx.seed)
        ps = parse(ctx, src)
        if len(ps) == 1 and ps[0].status == 'ret' and parsed(ctx, ps[0]) == want:
            rep.ok(len(want))
            return
        for l, w in zip(src.splitlines(), want):
            one(l + '\n', [w])
    return go


def context(src, want, isa=0):
    def go(ctx, rep):
        compare(ctx, rep, parse(ctx, src, isa), [Case('documented reading', [], cls='ok', lines=want(ctx))], parse_obs(ctx), seed=ctx.seed)
    return go


# ---------------------------------------------------------------- the automaton

def automaton(ctx, rep):
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        x = os.path.join(d, 'g.xml')
        subprocess.run(['bison', '-Wno-other', '--xml=' + x, '-o', os.path.join(d, 'g.c'), os.path.join(build.REPO, 'src', 'grammar.y')],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        root = ET.parse(x).getroot()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rules = {}
    for r in root.iter('rule'):
        if r.find('lhs') is not None:
            rules[r.get('number')] = (r.findtext('lhs'), [s.text for s in r.find('rhs') if s.tag == 'symbol'])
    toks = {t.get('name') for t in root.iter('terminal')}
    missing = [n for n in NAME if n not in toks]
    if missing:
        from drv import AnchorMissing
        raise AnchorMissing('grammar tokens %s' % missing)
    terms = set(toks)

    def level(rhs):
        """precedence of the operation a completed right hand side builds, or None"""
        if len(rhs) == 3 and rhs[1] in NAME and rhs[0] not in terms and rhs[2] not in terms:
            return PREC[NAME[rhs[1]]]
        if len(rhs) == 2 and rhs[0].strip("'") in UN and rhs[1] not in terms:
            return 100
        if len(rhs) == 5 and rhs[1] == "'?'" and rhs[3] == "':'":
            return 0
        return None
    # unary rules are those whose operand is an expression, i.e. a nonterminal that also occurs as binary operand
    operand = {r[0] for r in rules.values()} & {s for r in rules.values() if level(r[1]) and len(r[1]) == 3 for s in (r[1][0], r[1][2])}
    # nonterminals reachable by unit rules from operands
    grow = True
    while grow:
        grow = False
        for lhs, rhs in rules.values():
            if lhs in operand and len(rhs) == 1 and rhs[0] not in terms and rhs[0] not in operand:
                operand.add(rhs[0])
                grow = True
    found = set()
    n = 0
    for s in root.iter('state'):
        shifts = {t.get('symbol') for t in s.iter('transition') if t.get('type') == 'shift'}
        reds = {}
        for r in s.iter('reduction'):
            if r.get('enabled') == 'true':
                reds[r.get('symbol')] = r.get('rule')
        for it in s.iter('item'):
            lhs, rhs = rules[it.get('rule-number')]
            if int(it.get('dot')) != len(rhs) or (it.find('lookaheads') is None and '$default' not in reds and not reds):
                continue
            lv = level(rhs)
            if lv is None or lhs not in operand or rhs[-1] not in operand:
                continue
            found.add(it.get('rule-number'))
            for tok, op in sorted(NAME.items()):
                want_shift = PREC[op] > lv
                n += 1
                is_shift = tok in shifts
                red = reds.get(tok, reds.get('$default'))
                rule = '%s: %s' % (lhs, ' '.join(rhs))
                if want_shift and is_shift and reds.get(tok) is None:
                    rep.ok()
                elif not want_shift and not is_shift and red == it.get('rule-number'):
                    rep.ok()
                else:
                    rep.violation('src/grammar.y state %s' % s.get('number'),
                                  'after "%s" with lookahead %s the automaton %s, the documented precedence requires it to %s'
                                  % (rule, tok, 'shifts' if is_shift else 'reduces rule %s' % red, 'shift' if want_shift else 'reduce'))
    ops = {NAME[rules[r][1][1]] for r in found if len(rules[r][1]) == 3}
    un = {rules[r][1][0].strip("'") for r in found if len(rules[r][1]) == 2}
    rep.note('automaton states x rules x lookaheads', n)
    if ops != set(BIN) or un != set(UN) or n < 18 * 23:
        # another grammar shape: the interpretation below still decides it
        rep.note('automaton form not recognised for', len(set(BIN) - ops) + len(set(UN) - un))


def obligations(ctx, tier):
    ctx.need('grammar_parse_file')
    out = [('LALR automaton', automaton)]
    V = ['ka', 'kb', 'kc', 'kd']
    for o1 in BIN:
        out.append(('pairs %s' % o1, seqs([['ka', o1, 'kb', o2, 'kc'] for o2 in BIN])))
        out.append(('parens %s' % o1, seqs([['(', 'ka', o1, 'kb', ')', o2, 'kc'] for o2 in BIN] + [['ka', o1, '(', 'kb', o2, 'kc', ')'] for o2 in BIN])))
        out.append(('unary %s' % o1, seqs([[u, 'ka', o1, 'kb'] for u in UN] + [['ka', o1, u, 'kb'] for u in UN] + [['ka', o1, u, 'kb', '+', 'kc'] for u in UN]
                                          + [[u, '(', 'ka', o1, 'kb', ')'] for u in UN])))
        out.append(('ternary %s' % o1, seqs([['ka', o1, 'kb', '?', 'kc', ':', 'kd'], ['ka', '?', 'kb', o1, 'kc', ':', 'kd'], ['ka', '?', 'kb', ':', 'kc', o1, 'kd'],
                                             ['(', 'ka', '?', 'kb', ':', 'kc', ')', o1, 'kd'], ['ka', o1, '(', 'kb', '?', 'kc', ':', 'kd', ')']])))
        leaves = ['ka', '7', '$1F', '2.5', '3b', '4f', ('*',), '"x"', "'q", '&{1}']
        out.append(('leaves %s' % o1, seqs([[x, o1, y] for x in leaves for y in leaves])))
        out.append(('tight leaves %s' % o1, seqs([[x, o1, y] for x in leaves for y in leaves if not (o1 == '&' and y == '&{1}')]
                                                 + [[x, o1, '%101'] for x in leaves], sp='')))
        out.append(('tight unary %s' % o1, seqs([[u, 'ka', o1, 'kb'] for u in UN] + [['ka', o1, u, 'kb'] for u in UN]
                                                + [[v, u, 'ka', o1, 'kb'] for u in UN for v in UN], sp='')))
        for p in CTX:
            if p:
                out.append(('context %s %s' % (p, o1), seqs([['ka', o1, 'kb', o2, 'kc'] for o2 in BIN] + [['ka', o1, '7', o2, '1'] for o2 in BIN] + [['7', o1, '0', o2, 'ka'] for o2 in BIN], pre=p)))
        # constants beside each other, constants that are neutral for some operator, repeated operands
        for a, b, c in (('ka', '7', '$1F'), ('7', '$1F', '%101'), ('2.5', '7', 'ka'), ('ka', '7', '2.5'), ('ka', 'ka', 'ka'), ('7', '7', '7'), ('ka', '0', '1'), ('0', 'ka', '1'), ('1', 'ka', '0'),
                        ('ka', '1', 'kb'), ('0', '0', 'ka'), ('ka', '2', '2'), ('7', 'ka', '7'), ('7', '2', 'ka'), ('ka', '65535', '65535'), ('"x"', '7', '1'), (('*',), '1', '2'), ('3b', '2', '1'), (('*',), ('*',), '3b')):
            out.append(('constants %s: %s' % (o1, text_of([a, b, c], ' ')), seqs([[a, o1, b, o2, c] for o2 in BIN] + [[a, o1, '(', b, o2, c, ')'] for o2 in BIN] + [['(', a, o1, b, ')', o2, c] for o2 in BIN])))
        out.append(('unary constants %s' % o1, seqs([[u, x, o1, y] for u in UN for x in ('7', '0', '2.5', '1', '$1F') for y in ('ka', '7', '1')] + [[x, o1, u, y] for u in UN for x in ('7', '0', 'ka') for y in ('7', '0', '2.5', '1')]
                                                    + [[u, v, '7', o1, '1'] for u in UN for v in UN])))
        out.append(('constant ternary %s' % o1, seqs([[x, '?', y, o1, '7', ':', z] for x in ('0', '1', '7') for y in ('ka', '2') for z in ('kb', '0')] + [[x, o1, y, '?', '1', ':', '0'] for x in ('0', 'ka', '7') for y in ('0', 'kb', '7')])))
        tight = [o2 for o2 in BIN]
        out.append(('tight %s' % o1, seqs([['ka', o1, 'kb', o2, 'kc'] for o2 in tight], sp='')))
        for o2 in BIN:
            if tier == 'thorough' or PREC[o1] != PREC[o2]:
                out.append(('triples %s %s' % (o1, o2), seqs([['ka', o1, 'kb', o2, 'kc', o3, 'kd'] for o3 in BIN])))
    out.append(('unary unary', seqs([[u, v, 'ka'] for u in UN for v in UN] + [[u, v, w, 'ka', '*', 'kb'] for u in UN for v in UN for w in UN])))
    out.append(('nested ternary', seqs([['ka', '?', 'kb', '?', 'kc', ':', 'kd', ':', '7'], ['(', 'ka', '?', 'kb', ':', 'kc', ')', '?', 'kd', ':', '7']])))
    long = []
    for k in range(40 if tier == 'quick' else 400):
        import random
        r = random.Random(1000 + k)
        s = []
        for i in range(9):
            s += ([r.choice(UN)] if r.random() < .2 else []) + [r.choice(['ka', 'kb', '7', ('*',), '2.5'])] + [r.choice(BIN)]
        long.append(s[:-1])
    out.append(('long', seqs(long)))
    for o in BIN:
        e = lambda ctx, o=o: ('op', code(ctx, o), LEAF['ka'], LEAF['kb'])
        out.append(('list %s' % o, context(' fdb ka %s kb,kb %s ka , ka%skb\n' % (o, o, o), lambda ctx, e=e: [(None, name_node('fdb'), ('arr', e(ctx), ('op', e(ctx)[1], LEAF['kb'], LEAF['ka']), e(ctx)))])))
        out.append(('indirect %s' % o, context(' lda [ka %s kb,X]\n' % o, lambda ctx, e=e: [(None, name_node('lda'), ('arr', ('arr', e(ctx), ('reg', REGS['X']))))])))
        out.append(('comment %s' % o, context('lab lda ka %s kb ; x\nl2 ldb 7\n' % o, lambda ctx, e=e: [(name_node('lab'), name_node('lda'), ('arr', e(ctx))),
                                                                                                      (name_node('l2'), name_node('ldb'), ('arr', ('int', 7)))])))
    out += embed.subjects('C07', tier)
    return out
