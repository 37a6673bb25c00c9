"""C11: evaluation/iteration/time budgets and termination."""

import itertools
import math

from .. import core, engine, extreme, loop
from ..core import COMBOS, COMBOS_FAST, EPS, ExitFlag
from ..env import Prob, default_opt, run, undesc, _act
from ..oracles import check
from ..spaces import EXTRA, box, extra

PID = 'C11'
BOUNDS = {
    'quick': 'maxiter 0..7 (int, float and numpy) x every action sequence of '
             'length 3; time budgets {0,.5,3.5,7.5,20.5,inf} x every pattern '
             'of evaluation durations {0,1,5} of length 6 (729) under a '
             'virtual clock, repeated on the same optimizer; termination for always-rejecting '
             'environments of period <=3, 3 initial radii, all combinations; '
             'every iteration of runs with extreme magnitudes (1e-50..1e50) '
             'ends'
             + EXTRA,
    'thorough': 'durations of length 8, all combinations',
}
ALPHA = [(1.0, 'a', 'p'), (-1.0, 'b', 'i'), (0.5, 'e', 'p'), ('nan', 'a', 'p'),
         ('low', 'h', 'p')]


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for ks in ('uu', 'bZ', 'u'):
        for so, st in (COMBOS_FAST[::4] if quick else COMBOS_FAST):
            for m in (0, 1, 2, 3, 4, 5, 7):
                out.append(('iter', ks, so, st, m, 3 if quick else 4))
    for mt in (0.0, 0.5, 3.5, 7.5, 20.5, float('inf')):
        for ks in ('uu', 'bZ'):
            L = 6 if quick else 8
            for first in (0, 1, 5):
                out.append(('time', ks, mt, first, L))
    for so, st in COMBOS:
        for ks in ('uu', 'bZ', 'LU', 'u', 'BZb'):
            for d0 in (1.0, 1e-6, 1e4):
                if quick and st != 'reflect' and d0 != 1.0:
                    continue
                if st == 'refine' and (d0 != 1.0 or ks != 'bZ'):
                    continue
                out.append(('term', ks, so, st, d0, {}))
    for g1 in (0.5, 0.9, 0.1):
        for ks in ('uu', 'bZ'):
            out.append(('term', ks, '2D', 'reflect', 1.0, {'gamma1': g1}))
    out += extreme.tasks(quick)
    return out + extra(quick)


def iters(task, out):
    _, ks, so, st, m, d = task
    lb, ub, x0 = box(ks)
    seqs = list(itertools.product(ALPHA, repeat=d))
    for opts in (loop.NOCONV, {}):
        p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **opts)
        # beyond its length, a sequence repeats its last action
        loop.explore(PID, p, seqs, out, m)
    # exact count with convergence off and an always acceptable environment
    p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **loop.NOCONV)
    tr = run(p, [(0.5, 'a', 'p')] * m, maxiter=m)
    if len(tr.calls) != m + 1 or tr.final.it != m:
        out.violation(
            f'maxiter={m}: {len(tr.calls)} evaluations, {tr.final.it} '
            f'iterations', {'prob': p.desc(), 'acts': [(0.5, 'a', 'p')] * m,
                            'maxiter': m})
    for mm in (float(m), __import__('numpy').int64(m)):
        tr = run(p, [(0.5, 'a', 'p')] * m, maxiter=mm)
        if len(tr.calls) != m + 1:
            out.violation(f'maxiter={mm!r}: {len(tr.calls)} evaluations',
                          {'prob': p.desc(), 'acts': [(0.5, 'a', 'p')] * m,
                           'maxiter': m})


def time_case(ks, mt, durs, out, twice=True):
    """evaluation k takes durs[k] seconds of virtual time; the run is
    repeated on the same optimizer"""
    lb, ub, x0 = box(ks)
    p = Prob(lb, ub, x0, init=(1.0, 'a', 'p'), maxtime=mt, **loop.NOCONV)
    n = len(durs)
    core.clock.now = 1000.0
    core.clock.active = True
    acts = [(0.5, 'a', 'p')] * (n - 1)
    oh = default_opt(p, n - 1)
    try:
        for again in (0, 1) if twice else (0,):
            start = core.clock.now
            elapsed = []

            def hook(k, x, snap, ans, start=start, elapsed=elapsed):
                core.clock.now += durs[k] if k < n else 0
                elapsed.append(core.clock.now - start)

            tr = run(p, acts, maxiter=n - 1, hook=hook, opt_holder=oh)
            judge_time(ks, p, tr, mt, durs, elapsed, out, again)
            # time that passes between two runs counts for none of them
            core.clock.now += 13.0
    finally:
        core.clock.active = False


def judge_time(ks, p, tr, mt, durs, elapsed, out, again):
    n = len(durs)

    def ref(k):
        el = elapsed[k]
        stop = mt - el < el / max(k, 1)
        return stop, stop

    case = {'ks': ks, 'maxtime': mt, 'durs': list(durs)}
    if again:
        case['twice'] = True
    out.add('traces_validated_against_impl')
    out.add('transitions', max(0, len(tr.calls) - 1))
    out.add('states', len(tr.calls))
    # precondition: not stopping after the initial evaluation if time is left
    for lab, msg in check(p, tr, n - 1, None, time_ref=ref):
        if lab in ('C11', 'C10'):
            out.violation(f'durations {durs} maxtime {mt}: {msg}', case)
    k = len(tr.calls) - 1
    want = None
    for i in range(k + 1):
        if i < n - 1 and ref(i)[0]:
            want = i
            break
    if want is not None and (k != want
                             or tr.final.flag != ExitFlag.MAXTIME):
        out.violation(
            f'durations {durs} maxtime {mt}: expected time stop after '
            f'iteration {want}, got {k} with {tr.final.flag!r}', case)
    if not out.samples and want not in (None, 0):
        out.sample({**case, 'stopped_after': k, 'flag': tr.final.flag.name})


def terminate(task, out):
    _, ks, so, st, d0, opts = task
    lb, ub, x0 = box(ks)
    g1 = opts.get('gamma1', 0.25)
    bound = math.ceil(math.log(max(d0 / EPS, 1)) / math.log(1 / g1)) + 2
    poor = [('nan', 'a', 'p'), (-1.0, 'b', 'i'), ('inf', 'h', 'n'),
            ('eq', 'e', '0'), (-1e-3, 'h', 'b'), ('-inf', 'd', 'p')]
    seqs = [(a,) for a in poor] + list(itertools.product(poor, repeat=2))
    if ks in ('bZ', 'u') and d0 == 1.0 and st in ('reflect', 'mixed'):
        seqs += list(itertools.product(poor[:4], repeat=3))
    if st == 'refine':
        seqs = seqs[:3]
    for pre in (((1.0, 'a', 'q'),),):
        for s in seqs:
            acts = pre + tuple(s) * (bound // len(s) + 3)
            p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), delta_init=d0,
                     **loop.NOCONV, **opts)
            tr = run(p, acts, maxiter=1000, limit=60)
            out.add('traces_validated_against_impl')
            out.add('transitions', max(0, len(tr.calls) - 1))
            out.add('states', len(tr.calls))
            case = {'term': list(task), 'seq': [list(a) for a in s]}
            if tr.hang:
                out.violation('no termination', case)
            elif tr.exc is not None:
                out.violation(f'{tr.exc!r}', case)
            elif tr.final.flag != ExitFlag.DELTA_TOO_SMALL:
                out.violation(
                    f'always-rejecting environment {s} ended with '
                    f'{tr.final.flag!r} after {len(tr.calls)} evaluations',
                    case)
            elif len(tr.calls) > bound + 3 + len(pre):
                out.violation(
                    f'always-rejecting environment {s} needs {len(tr.calls)} '
                    f'evaluations, bound {bound}', case)


def work(task):
    if isinstance(task, list):
        return loop.work_loop(PID, task)
    if task[0] == 'extreme':
        return extreme.work(task, points=False)
    out = engine.Out()
    if task[0] == 'iter':
        iters(task, out)
    elif task[0] == 'time':
        _, ks, mt, first, L = task
        for rest in itertools.product((0, 1, 5), repeat=L - 1):
            time_case(ks, mt, (first,) + rest, out)
    else:
        terminate(task, out)
    return out


def replay(case, out):
    if 'durs' in case:
        return time_case(case['ks'], float(case['maxtime']), case['durs'],
                         out)
    if 'term' in case:
        t = list(case['term'])
        t[4] = float(t[4])
        t[5] = {k: float(v) for k, v in t[5].items()}
        return terminate(tuple(t), out)
    if 'extreme' in case:
        return extreme.one(case['extreme'], out, points=False)
    p = undesc(case['prob'])
    acts = [_act(a) for a in case['acts']]
    tr = run(p, acts, maxiter=case['maxiter'])
    for lab, msg in check(p, tr, case['maxiter']):
        if lab == PID:
            out.violation(msg, case)
    if len(tr.calls) > case['maxiter'] + 1:
        out.violation('too many evaluations', case)
