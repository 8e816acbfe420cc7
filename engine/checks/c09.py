"""Abstract interpretation of main.  (a) assemble_prog replaced by its most general effect on the
diagnostics: any sequence of up to two diagnostics of any level in each pass, under each verbosity and
with every output requested.  (b) Every fopen, write and fclose of every requested output may fail at
any point (one failure at an arbitrary point; ferror is sticky), for each output format and file.
(c) Problems found only after assembly (overlap, execution address, exports).  On every partition: exit
status 0 exactly if nothing failed and no diagnostic at error level was issued; else a message
containing "error:" on standard error; no output file opened when assembly failed; on success every
requested file was opened, written and closed without failure.  (d) In the IR, every call that reports
an error-level diagnostic passes a message format (a silent error would give a failing exit without a
message)."""
import itertools
from common import *
RULE = 'subject = (diagnostic sequence, verbosity) | (output file, format, failing operation) | (late problem) | error call site'
TECHNIQUE = 'abstract interpretation of main with failing I/O operations and arbitrary diagnostics; lint of every error() call site'

OUTS = {'out': '-o', 'lst': '-l', 'exp': '-E', 'sym': '-s'}
SRC = ' org $100\nfoo fcb 1,2\n org $200\n fcb 3\n export foo\n end foo\n'


def args(names, *extra):
    a = list(extra)
    for n in names:
        a += [OUTS[n], n]
    return a + ['in.s']


def obs(ctx, names):
    def f(p):
        ev = streams(p.st)
        err = text(out_events(p.st, 'stderr'))
        w = [s for s in ev if 'w' in s['mode'] or 'a' in s['mode']]
        code = exit_code(p)
        if type(code) not in (int, bool):
            raise Gap('exit status')
        complete = sorted(s['name'] for s in w if s['opened'] and s['closed'] and not s['failed'])
        return {'status': 'success' if code == 0 else 'failure', 'message': 'error: ' in err, 'created': sorted(s['name'] for s in w if s['opened']),
                'complete': complete == sorted(names), 'opened once': len({s['name'] for s in w}) == len(w)}
    return f


def diagnostics(levels, verb):
    """levels: list per pass of tuples of levels"""
    def go(ctx, rep):
        ctx.need('assemble_prog', 'error')
        M = ctx.M
        st0, fmt = ctx.cstr(M.base.clone(), 'problem %d')
        fmtb = b'problem'

        def hook(M, st, a):
            pas = a[1]
            if type(pas) is not int:
                raise Gap('symbolic pass number')
            for l in levels[min(pas, len(levels) - 1)]:
                if not l:
                    continue
                m = M.cstr(st, fmtb)
                st2, _ = M.call1(st, 'error', [l, m])
                take(st, st2)
            return 0
        M.hooks['assemble_prog'] = hook
        try:
            ps = run_main(ctx, args(OUTS, '-P', '2', *verb), {'in.s': SRC})
        finally:
            del M.hooks['assemble_prog']
        worst = max(levels[-1], default=0)
        bad = worst > errs(ctx)['error_type_illegal']
        want = dict(status='failure', message=True, created=[]) if bad else dict(status='success', message=False, complete=True)
        compare(ctx, rep, ps, [Case('diagnosed' if bad else 'clean', [], **want)], obs(ctx, OUTS), seed=ctx.seed)
    return go


def take(st, st2):
    """continue st as st2"""
    for k in st.__slots__:
        setattr(st, k, getattr(st2, k))
    st.owned = set()


def faults(name, fmt, kinds):
    def go(ctx, rep):
        ps = run_main(ctx, args([name], *fmt), {'in.s': SRC}, set(kinds) | {'once'})
        bad = good = 0
        o = obs(ctx, [name])
        for p in ps:
            if p.status == 'alarm':
                compare(ctx, rep, [p], [Case('fault', [])], o)
                continue
            ev = p.st.events()
            failed = [e for e in ev if e[0] in ('write-failed', 'fopen-failed') or (e[0] == 'fclose' and e[2])]
            # failures of reading the source leave nothing to assemble
            if failed:
                src = any(e[0] == 'fopen-failed' and bytes(e[1]) == b'in.s' for e in failed)
                bad += 1
                inid = [e[1] for e in ev if e[0] == 'fopen' and bytes(e[2]) == b'in.s']
                onlysrc = all(e[0] == 'fclose' and e[1] in inid for e in failed)
                if onlysrc:
                    continue
                want = dict(status='failure', message=True)
                if src:
                    want['created'] = []
                compare(ctx, rep, [p], [Case('operation failed', [], **want)], o, seed=ctx.seed)
            else:
                good += 1
                compare(ctx, rep, [p], [Case('all operations succeeded', [], status='success', message=False, complete=True)], o, seed=ctx.seed)
        if not bad or good != 1:
            rep.gap('%d failing and %d succeeding partitions' % (bad, good))
    return go


def read_fault(ctx, rep):
    ps = run_main(ctx, args(OUTS), {'in.s': SRC}, {'fread', 'once'})
    o = obs(ctx, OUTS)
    n = 0
    for p in ps:
        bad = p.status != 'alarm' and any(e[0] == 'write-failed' for e in p.st.events())
        n += bad
        compare(ctx, rep, [p], [Case('read failed' if bad else 'read', [], **(dict(status='failure', message=True, created=[]) if bad else dict(status='success', message=False, complete=True)))], o, seed=ctx.seed)
    if not n:
        rep.gap('no failing read')


LATE = {
    'overlap': (' org $100\n fcb 1,2\n org $101\n fcb 3\n', ['out'], 'err'),
    'overlap not output': (' org $100\n fcb 1,2\n org $101\n fcb 3\n', ['lst'], 'ok'),
    'exec option undefined': (' fcb 1\n', ['out'], 'err', '-e', 'nowhere'),
    'exec option not a number': ('foo equ x\n fcb 1\n', ['out'], 'err', '-e', 'foo'),
    'exec option defined': ('foo fcb 1\n', ['out'], 'ok', '-e', 'foo'),
    'exec not a number': (' fcb 1\n end x\n', ['out'], 'err', '-D'),
    'exported symbol undefined': (' fcb 1\n export nosuch\n', ['exp'], 'err'),
    'unbalanced conditional': (' if 1\n fcb 1\n', list(OUTS), 'none'),
    'unfinished macro': ('m macro\n fcb 1\n', list(OUTS), 'none'),
    'unknown instruction': (' frob\n', list(OUTS), 'none'),
    'bad line': ('*c\n+ + +\n', list(OUTS), 'none'),
    'missing file': (' include "nosuch"\n', list(OUTS), 'none'),
    'missing binary': (' includebin "nosuch"\n', list(OUTS), 'none'),
    'undefined symbol': (' fdb nosuch\n', list(OUTS), 'none'),
    'never settles': ('a equ b+1\nb equ a+1\n', list(OUTS), 'none'),
    'out of range': (' org $70000\n', list(OUTS), 'none'),
    'branch out of range': (' bra 4000\n', list(OUTS), 'none'),
}


def late(src, names, want, *extra):
    def go(ctx, rep):
        ps = run_main(ctx, args(names, *extra), {'in.s': src})
        w = {'ok': dict(status='success', message=False, complete=True), 'err': dict(status='failure', message=True),
             'none': dict(status='failure', message=True, created=[])}[want]
        compare(ctx, rep, ps, [Case('late problem', [], **w)], obs(ctx, names), seed=ctx.seed)
    return go


def call_sites(ctx, rep):
    """every call of the diagnostics function with an error level has a non-null, non-empty format"""
    import irq
    E = errs(ctx)
    n = 0
    for fn, ins, loc, a in irq.calls(ctx, 'error'):
        n += 1
        level, fmt = irq.const_int(a[0]), a[1]
        if level is not None and level <= E['error_type_illegal']:
            rep.ok()
            continue
        if irq.is_null(fmt):
            rep.violation('%s (%s)' % (fn, loc), 'error-level diagnostic without a message: the program would fail silently')
        else:
            rep.ok()
    if not n:
        rep.gap('no call of error() found')


def obligations(ctx, tier):
    ctx.need('main', 'error', 'error_print_list', 'assemble_prog')
    out = []
    L = range(8)
    verbs = ((), ('-q',), ('-v',))
    for v in verbs:
        for a in L:
            for b in L:
                out.append(('diagnostics %d,%d in the last pass %s' % (a, b, ' '.join(v)), diagnostics([(a, b)], v)))
        for a in L:
            # pass 0 inconsistent so that another pass decides
            out.append(('diagnostic %d after a pass with others %s' % (a, ' '.join(v)), diagnostics([(3, 4), (a,)], v)))
    for n in OUTS:
        for fmt in ((('-B',), ('-D',), ('-C',), ('-S',), ('-H',)) if n == 'out' else ((),)):
            for k in ('fopen', 'fwrite', 'fclose'):
                out.append(('%s %s with failing %s' % (n, ' '.join(fmt), k), faults(n, fmt, [k])))
            if tier == 'thorough':
                out.append(('%s %s with any failing' % (n, ' '.join(fmt)), faults(n, fmt, ['fopen', 'fwrite', 'fclose'])))
    out.append(('reading the source with failing read', read_fault))
    for n, (src, names, want, *extra) in LATE.items():
        out.append((n, late(src, names, want, *extra)))
    # any number of diagnostics, of any length, in any order
    for n in (9, 17, 65, 129, 257) + ((600, 1030) if tier == 'thorough' else ()):
        for v in verbs:
            for a, b in ((1, 2), (2, 4), (4, 2), (4, 4), (6, 1), (2, 7)):
                out.append(('%d diagnostics %d, then %d %s' % (n, a, b, ' '.join(v)), diagnostics([(a,) * n + (b,)], v)))
                out.append(('diagnostic %d, then %d of %d %s' % (b, n, a, ' '.join(v)), diagnostics([(b,) + (a,) * n], v)))
        out.append(('%d bad lines' % n, late(' frob\n' * n, OUTS, 'none')))
        out.append(('%d good lines, then a bad one' % n, late(' fcb 1\n' * n + ' frob\n', OUTS, 'none')))
        out.append(('a bad line, then %d good ones' % n, late(' lda 1,\n' + ' fcb 1\n' * n, OUTS, 'none')))
        out.append(('%d warnings' % n, late('foo nop\n' + ' lbra foo\n' * n, OUTS, 'ok')))
        out.append(('a message of %d characters' % n, late(' ' + 'q' * n + '\n', OUTS, 'none')))
        out.append(('an undefined name of %d characters' % n, late(' fdb ' + 'q' * n + '\n', OUTS, 'none')))
        out.append(('a bad line after a name of %d characters' % n, late('q' * n + ' nop\n frob\n', OUTS, 'none')))
    out.append(('call sites of error()', call_sites))
    return out
