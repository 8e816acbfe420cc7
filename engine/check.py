#!/usr/bin/env python3
"""Runs the static checks: check.py <property> [--tier quick|thorough]

Builds the LLVM IR of /repo's current tree, lets the property's module enumerate its obligations,
decides them (in parallel worker processes), writes evidence/<id>.json and reports."""
import os, sys, time, json, pickle, random, traceback, importlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(20000)

from vals import *
import drv
import prove
from drv import Ctx, AnchorMissing
from machine import Gap, inp, Machine, State

MAX_GAP_SHARE = 0.2


class Rep:
    """what one worker found"""

    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.unproved = []
        self.gaps = []
        self.viol = []
        self.samples = []
        self.cases = {}
        self.errors = []
        self.anchors = []
        self.notes = {}
        self.cur = ''

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def gap(self, msg):
        self.obligations += 1
        self.gaps.append('%s: %s' % (self.cur, msg))

    def undecided(self, msg):
        self.obligations += 1
        self.unproved.append('%s: %s' % (self.cur, msg))

    def violation(self, where, msg, trace=()):
        self.obligations += 1
        self.viol.append((self.cur, where, msg, tuple(trace)))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


class Case:
    """guard: facts; want: dict label -> expected (see compare)"""

    def __init__(self, name, guard, **want):
        self.name = name
        self.guard = guard
        self.want = want


def where_of(ctx, st, path=None):
    """last program points that decided this partition"""
    pts = []
    for f in st.facts():
        if f[0] == 'at':
            try:
                pts.append('%s (%s)' % (f[1], ctx.d.loc(f[2])))
            except Exception:
                pts.append(f[1])
    if path is not None and path.loc and path.loc != '?':
        pts.append('ends at ' + path.loc)
    out = []
    for p in pts:
        if not out or out[-1] != p:
            out.append(p)
    return out


def real_facts(st):
    return [f for f in st.facts() if f[0] in ('lin', 'nlin', 'cond')]


class Any_:
    def __repr__(self):
        return 'anything'


ANY = Any_()


class OneOf:
    def __init__(self, *a):
        self.a = a

    def __repr__(self):
        return 'one of %r' % (self.a,)


def show(v):
    if isinstance(v, (list, tuple)):
        return '[' + ' '.join(show(x) for x in v) + ']'
    if type(v) is int:
        return '%#x' % v if v > 9 else str(v)
    return repr(v)


def cmp_val(st, got, want, w=8):
    """(True|False|None, differ predicate, values)"""
    if want is ANY:
        return True, None, ()
    if isinstance(want, OneOf):
        for x in want.a:
            r = cmp_val(st, got, x, w)
            if r[0] is True:
                return r
        preds = [cmp_val(st, got, x, w) for x in want.a]
        if all(p[0] is False and p[1] is None for p in preds):
            return False, None, ()

        def d(val):
            return all(p[1] is None or p[1](val) for p in preds)
        return None, d, tuple(v for p in preds for v in p[2])
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return False, None, ()
        res = True
        diffs = []
        vals = []
        for g, x in zip(got, want):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'w':
                r, d, v = cmp_val(st, g, x[2], x[1])
            else:
                r, d, v = cmp_val(st, g, x, w)
            if r is True:
                continue
            if r is False and d is None:
                return False, None, ()
            res = None if res is True else res
            if r is False:
                res = False
            diffs.append(d)
            vals.extend(v)
        if res is True:
            return True, None, ()

        def anyd(val):
            for d in diffs:
                if d(dict(val)):
                    return True
            return False
        return res, anyd, tuple(vals)
    if isinstance(want, (str, bytes)) or want is None or got is None or isinstance(got, (str, bytes)):
        return (True, None, ()) if got == want else (False, None, ())
    if type(got) is tuple or type(want) is tuple or type(got) is list:
        return (True, None, ()) if got == want else (False, None, ())
    if type(got) in (int, S, F, float) and type(want) in (int, S, F, float):
        # kinds must agree (an integer is not a double)
        fg, fw = type(got) in (F, float), type(want) in (F, float)
        if fg != fw:
            return False, None, ()
        r = prove.equal(st, got, want, w)
        if r is True:
            return True, None, ()
        return r, prove.values_differ(w, got, want), (got, want)
    r = got == want
    return (True, None, ()) if r else (False, None, ())


def compare(ctx, rep, paths, cases, obs, seed=1, allow=(), tries=400, need_cover=True):
    """every partition of `paths` intersected with every case must show the wanted observation"""
    hit = set()
    for p in paths:
        st = p.st
        if p.status == 'alarm' and 'alarm' not in allow:
            _confirm(ctx, rep, st, p, None, (), 'assembler fault: %s: %s at %s' % (p.value[0], p.value[1], p.loc), seed, tries)
            continue
        try:
            o = obs(p)
        except Gap as g:
            rep.gap('observation: %s' % g)
            continue
        matched = False
        for i, c in enumerate(cases):
            s2 = st
            if c.guard:
                s2 = st.clone()
                if not s2.assume(c.guard):
                    continue
            if not prove.feasible(s2):
                continue
            matched = True
            hit.add(i)
            rep.cases[c.name] = rep.cases.get(c.name, 0) + 1
            bad = None
            res = True
            diffs, vals = [], []
            for k, want in c.want.items():
                got = o.get(k)
                w = 8
                if isinstance(want, tuple) and len(want) == 3 and want[0] == 'w':
                    w, want = want[1], want[2]
                r, d, v = cmp_val(s2, got, want, w)
                if r is True:
                    continue
                if bad is None:
                    bad = (k, got, want)
                if r is False and d is None:
                    res = False
                    diffs = [None]
                    bad = (k, got, want)
                    break
                if res is True:
                    res = None
                diffs.append(d)
                vals.extend(v)
            if res is True:
                rep.ok()
                continue
            dd = None if diffs == [None] else (lambda val, ds=tuple(diffs): any(x(dict(val)) for x in ds))
            _confirm(ctx, rep, s2, p, dd, vals, '%s is %s, expected %s (case: %s)' % (bad[0], show(bad[1]), show(bad[2]), c.name), seed, tries)
        if not matched:
            if prove.feasible(st) and prove.witness(st, lambda v: True, (), tries=60, seed=seed, facts=real_facts(st)) is not None:
                rep.gap('a partition matches no case')
            else:
                rep.note('infeasible partitions')
    if need_cover:
        for i, c in enumerate(cases):
            if i not in hit:
                rep.gap('case %s is reached by no partition' % c.name)


def _confirm(ctx, rep, st, p, differ, vals, msg, seed, tries):
    wit = prove.witness(st, differ or (lambda v: True), vals, tries=tries, seed=seed, facts=real_facts(st))
    if wit is None:
        rep.undecided(msg)
        return
    tr = where_of(ctx, st, p)
    rep.violation(tr[-1] if tr else (p.loc or '?'), msg, tr[-12:] + ['for ' + prove.describe(wit)])


def run_obligation(ctx, rep, name, fn):
    rep.cur = name
    t = time.time()

    def late(*_):
        raise Gap('obligation takes too long')
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 60 if getattr(ctx, 'tier', 'quick') == 'quick' else 240)
    try:
        try:
            before = rep.obligations + rep.notes.get('unspecified', 0)
            fn(ctx, rep)
            if rep.obligations + rep.notes.get('unspecified', 0) == before:
                raise Gap('no obligation arose')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Gap as g:
        rep.gap('%s %s' % (g, (g.where or [''])[:2]))
    except AnchorMissing as e:
        rep.anchors.append('%s: %s' % (name, e))
    except RecursionError:
        rep.gap('recursion limit')
    except (Exception, MemoryError):
        rep.errors.append('%s: %s' % (name, traceback.format_exc()))
    rep.note_time = time.time() - t


DEV = os.environ.get('VERIF_DEV')      # not set in registered commands


def worker(ctx, obs, k, n, wfd, deadline):
    rep = Rep()
    times = []
    order = list(range(k, len(obs), n))
    for i in order:
        if time.time() > deadline:
            rep.cur = obs[i][0]
            rep.gap('time budget')
            continue
        t = time.time()
        run_obligation(ctx, rep, obs[i][0], obs[i][1])
        times.append((time.time() - t, obs[i][0]))
        if rep.viol and DEV:
            break
    times.sort(reverse=True)
    st = ctx.M.stats if ctx else {}
    data = pickle.dumps((rep.__dict__, st, sorted(ctx.M.calls) if ctx else [], times[:3]))
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def parallel(ctx, obs, nproc, budget):
    deadline = time.time() + budget
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(ctx, obs, k, nproc, w, deadline)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(w)
        procs.append((pid, r))
    outs = []
    for pid, r in procs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            outs.append(None)
        else:
            outs.append(pickle.loads(data))
    return outs


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    verbose = '-v' in argv
    only = argv[argv.index('-k') + 1] if '-k' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    evd = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    evp = os.path.join(evd, pid + '.json')
    try:
        ctx = Ctx()
        ctx.seed = seed
        ctx.tier = tier
        tb = time.time() - t0
        obs = mod.obligations(ctx, tier)
    except AnchorMissing as e:
        print('ERROR property=%s anchor missing: %s' % (pid, e))
        return 2
    if only:
        obs = [o for o in obs if only in o[0]]
    obs = [o for o in obs if o is not None]
    if DEV and DEV != '1':
        # development aid: every n-th subject only, stop at the first violation
        random.Random(seed).shuffle(obs)
        obs = obs[:max(40, len(obs) // int(DEV))]
    nproc = min(int(os.environ.get('VERIF_JOBS', '8')), max(1, len(obs)))
    budget = 240 if tier == 'quick' else 780
    outs = parallel(ctx, obs, nproc, budget)
    rep = Rep()
    stats = {}
    fns = set()
    times = []
    for o in outs:
        if o is None:
            rep.errors.append('a worker died')
            continue
        d, st, calls, tm = o
        rep.obligations += d['obligations']
        rep.discharged += d['discharged']
        for k in ('unproved', 'gaps', 'viol', 'errors', 'anchors'):
            getattr(rep, k).extend(d[k])
        rep.samples.extend(d['samples'])
        for k, v in d['cases'].items():
            rep.cases[k] = rep.cases.get(k, 0) + v
        for k, v in d['notes'].items():
            rep.notes[k] = rep.notes.get(k, 0) + v
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        fns.update(calls)
        times.extend(tm)
    times.sort(reverse=True)
    # findings
    known = known_findings(pid)
    fresh, hits = [], {}
    for v in rep.viol:
        text = '%s | %s | %s' % (v[0], v[1], v[2])
        for f in known:
            if f['obligation'] in v[0] and f['match'] in text:
                hits.setdefault(f['what'], 0)
                hits[f['what']] += 1
                break
        else:
            fresh.append(v)
    wall = time.time() - t0
    cov = {
        'obligations': rep.obligations, 'discharged': rep.discharged,
        'undecided': len(rep.unproved), 'not_modelled': len(rep.gaps), 'violating': len(rep.viol),
        'subjects': len(obs), 'cases': len(rep.cases),
        'case_instances': dict(sorted(rep.cases.items())[:60]),
        'functions_analysed': sorted(fns),
        'trace_partitions': stats.get('paths', 0), 'abstract_steps': stats.get('steps', 0),
        'branch_partitions': stats.get('forks', 0), 'accelerated_loops': stats.get('accelerated', 0),
        'notes': rep.notes,
        'samples': rep.samples[:6] or [o[0] for o in obs[:3]],
        'undecided_list': rep.unproved[:10], 'not_modelled_list': rep.gaps[:10],
        'explanation': mod.__doc__.strip() if mod.__doc__ else '',
        'rule': getattr(mod, 'RULE', ''),
        'build_seconds': round(tb, 1),
    }
    ev_ = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
           'assumptions': getattr(mod, 'ASSUMPTIONS', []) + STD_ASSUMPTIONS,
           'wall_s': round(wall, 2), 'violations': len(fresh)}
    with open(evp, 'w') as f:
        json.dump(ev_, f, indent=1)
    if verbose:
        for t, n in times[:8]:
            print('  %.1fs %s' % (t, n))
        for x in rep.unproved[:40]:
            print('  undecided', x)
        for x in rep.gaps[:40]:
            print('  gap', x)
        print('  notes', rep.notes)
    print('%s: %d subjects, %d obligations, %d discharged, %d undecided, %d not modelled, %d violating, %d functions, %.1fs'
          % (pid, len(obs), rep.obligations, rep.discharged, len(rep.unproved), len(rep.gaps), len(rep.viol), len(fns), wall))
    for w, n in hits.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if fresh:
        rp = os.path.join(evd, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('subject: %s\nwhere:   %s\nfinding: %s\n' % v[:3])
                for t in v[3]:
                    f.write('   %s\n' % t)
                f.write('\n')
        for v in fresh[:12 if not verbose else 60]:
            print('  %s: %s: %s' % v[:3])
            if verbose and v[3]:
                print('      ' + v[3][-1])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if rep.errors:
        print('ERROR property=%s internal error in %d obligations' % (pid, len(rep.errors)))
        for e in rep.errors[:3]:
            print(e)
        return 3
    if rep.anchors:
        print('ERROR property=%s anchor missing: %s' % (pid, rep.anchors[0]))
        return 2
    if rep.discharged == 0 or (len(rep.gaps) + len(rep.unproved)) > MAX_GAP_SHARE * rep.obligations:
        print('ERROR property=%s inconclusive: %d of %d obligations not decided' % (pid, len(rep.gaps) + len(rep.unproved), rep.obligations))
        for x in (rep.gaps + rep.unproved)[:5]:
            print('   ', x)
        return 2
    return 0


STD_ASSUMPTIONS = [
    'LLVM IR produced by clang -O0 (+mem2reg) from the current sources; the gnulib modules and dt101 are analysed too, libc is modelled',
    'allocation never fails; the C locale',
]

if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        print('ERROR property=%s internal error' % sys.argv[1])
        traceback.print_exc()
        code = 3
    sys.exit(code)
