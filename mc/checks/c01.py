"""C01: every evaluated, intermediate and returned point is feasible and
finite; infeasible starts are refused before any evaluation."""

import itertools

import numpy as np

from .. import engine, extreme, loop
from ..core import COMBOS, COMBOS_FAST, INF, NUDGE, ExitFlag, drive, make
from ..env import Prob
from ..spaces import EXTRA, extra

PID = 'C01'
BOUNDS = {
    'quick': 'boxes from 10 kinds per variable, n<=3 (n=1 all, n=2 30 pairs, '
             'n=3 3 boxes), all solver/step-back combinations, 5 radii, 3 '
             'step-back fractions, action sequences of length 2 (6 actions) '
             'and persistent sequences of length 25; all starts outside; '
             'extreme magnitudes (1e-50..1e50) of derivatives and radii, '
             '3 iterations; steps up to the bounds that exceed them by rounding '
             '(8 x 6 x 3 boxes and starts, n = 1, 2, 3, 5)'
             + EXTRA,
    'thorough': 'all pairs of 10 kinds, action sequences of length 3',
}
X = {
    'u': (-INF, INF, 0.5),
    'L': (0.0, INF, 1e-3),
    'U': (-INF, 1.0, 0.999),
    'b': (-1.0, 1.0, 0.25),
    'B': (0.0, 1.0, 1.0),
    'Z': (0.0, 1.0, 0.0),
    'T': (0.1, 0.1 + 1e-6, 0.1 + 3e-7),
    'M': (1e6, 1e6 + 0.7, 1e6 + 0.3),
    'W': (-1e8, 1e8, 1e8 - 0.1),
    'Y': (0.3, 0.3 + 1e-12, 0.3),
}


def prob(ks, so, st, init, **o):
    lb, ub, x0 = zip(*[X[k] for k in ks])
    opts = dict(loop.NOCONV)
    opts.update(o)
    return Prob(lb, ub, x0, so, st, init=init, **opts)


def tasks(tier):
    quick = tier == 'quick'
    allp = [''.join(p) for p in itertools.product(X, repeat=2)]
    pairs = allp[::3] + ['BB', 'ZZ', 'bZ', 'LU'] if quick else allp
    boxes = list(X) + pairs + ['ubZ', 'BLT', 'bbM']
    acts = [(1.0, 'a', 'p'), (1.0, 'b', 'i'), (1.0, 'h', 'b'), (0.3, 'd', '0'),
            (-1.0, 'a', 'p'), (1.0, 'e', 'r')]
    inits = [(0.0, 'a', 'p'), (0.0, 'h', 'i'), (0.0, 'b', 'q')]
    radii = [1.0, 1e-3, 30.0]
    out = []
    d = 2 if quick else 3
    seqs = list(itertools.product(acts, repeat=d))
    persistent = [tuple([a] * 25) for a in acts] + [
        tuple([a, b] * 12) for a, b in itertools.permutations(acts[:4], 2)
    ]
    for i, (ks, (so, st)) in enumerate(itertools.product(boxes, COMBOS_FAST)):
        for j, (init, r) in enumerate(itertools.product(inits, radii)):
            if quick and (i + j) % 3:
                continue
            th = (0.95, 0.5, 0.999999)[(i + j // 3) % 3]
            p = prob(ks, so, st, init, delta_init=r, theta_max=th)
            out.append([(p, seqs[(i + j) % 2::2] if quick else seqs, d)])
        p = prob(ks, so, st, inits[i % 3], delta_init=radii[i % 2])
        out.append([(p, persistent, 24)])
    for ks in ['bZ', 'BL', 'UU'] + ([] if quick else pairs):
        for so in ('2D', 'full'):
            for init in inits:
                for r in (1.0, 1e-2):
                    p = prob(ks, so, 'refine', init, delta_init=r)
                    out.append([(p, [(a,) for a in acts[:2]], 1)])
    out += extra(quick)
    out += extreme.tasks(quick)
    for so, st in COMBOS_FAST[::3] if quick else COMBOS_FAST:
        for n in (1, 2, 3, 5):
            out.append(('round', so, st, n, quick))
    out.append('outside')
    # long tasks first, short ones last
    return out


def rounded(so, st, n, quick, out):
    """steps that end as close to the bounds as theta_max admits, such that
    start + step exceeds them (by rounding) in one or in all variables"""
    LB = [-0.1, -0.7, -1 / 3, -2.3, -5.77, -9.1, 0.3, 17.9]
    W = [0.1, 0.37, 1.1, 2.9, 7.7, 9.3]
    FR = [0.23, 0.5, 1 / 3, 0.71, 0.62]
    for lo, w, fr in itertools.product(LB, W, FR[::2] if quick else FR):
        for sg, th in itertools.product((1.0, -1.0, 7.3, -3.1),
                                        (1 - 1e-16, 1 - 1e-15)):
            rounding(so, st, n, lo, w, fr, sg, th, False, out)
            if n > 1 and sg > 0:
                rounding(so, st, n, lo, w, fr, sg, th, True, out)
            if len(out.viol) > 2:
                return


def rounding(so, st, n, lo, w, fr, sg, th, vary, out):
    v = np.arange(n) * 0.13 if vary else np.zeros(n)
    lb = lo + v
    ub = lb + w * (1 + v)
    x0 = lb + (ub - lb) * fr
    g = sg * np.ones(n) * ((-1) ** np.arange(n) if vary else 1)
    o, h = make(lb, ub, so, st, delta_init=1e3, theta_max=th, maxiter=2,
                **loop.NOCONV)
    tr = drive(o, x0.copy(),
               lambda k, x, s: (-float(k), g.copy(), np.zeros((n, n))),
               holder=h)
    out.add('traces_validated_against_impl')
    out.add('states', len(tr.calls))
    case = {'round': [so, st, n, lo, w, fr, sg, th, vary]}
    pts = [c[0] for c in tr.calls] + [tr.final.x]
    for x in pts:
        if not (np.isfinite(x).all() and np.all(x >= lb) and np.all(x <= ub)):
            out.violation(f'infeasible or undefined point {x}', case)
            return
    if tr.exc is not None:
        out.violation(f'feasible start {x0}: {tr.exc!r}', case)


def outside(out):
    """starts outside of the bounds (or undefined) are refused"""
    lb, ub = [-1.0, 0.0], [1.0, INF]
    for (so, st) in COMBOS:
        for x0 in itertools.product(
            [-1.5, -1.0 - 1e-9, 0.0, 1.0 + 1e-9, np.nan, 1e300],
            [-1e-9, 0.5, -INF, np.nan, -5.0],
        ):
            x0 = np.array(x0)
            inside = bool(np.all((x0 >= lb) & (x0 <= ub)))
            if inside:
                continue
            o, h = make(lb, ub, so, st, maxiter=2)
            n = []

            def env(k, x, s):
                n.append(x)
                return 1.0, np.ones(2), np.eye(2)

            tr = drive(o, x0.copy(), env, holder=h)
            out.add('outside_starts')
            out.add('traces_validated_against_impl')
            case = {'outside': x0, 'solver': so, 'strat': st}
            if n:
                out.violation(f'evaluated {n} for start {x0}', case)
            elif not isinstance(tr.exc, RuntimeError):
                out.violation(f'infeasible start {x0} gave {tr.exc!r}', case)
            elif tr.final.flag != ExitFlag.EXCEEDED_BOUNDARY:
                out.violation(f'start {x0}: flag {tr.final.flag!r}', case)
    # starts on a bound are admissible
    for x0 in itertools.product([-1.0, 1.0, 1.0 - NUDGE / 2, 0.0],
                                [0.0, NUDGE / 2, 1.0]):
        o, h = make(lb, ub, maxiter=2)
        tr = drive(o, np.array(x0),
                   lambda k, x, s: (1.0 - k, np.ones(2), np.eye(2)), holder=h)
        out.add('boundary_starts')
        if tr.exc is not None:
            out.violation(f'start on bound {x0} refused: {tr.exc!r}',
                          {'boundary': x0})


def work(task):
    if task == 'outside':
        out = engine.Out()
        outside(out)
        return out
    if task[0] == 'round':
        out = engine.Out()
        rounded(*task[1:], out)
        return out
    if task[0] == 'extreme':
        return extreme.work(task, points=True)
    return loop.work_loop(PID, task)


def replay(case, out):
    if 'round' in case:
        so, st, n, *v, vary = case['round']
        rounding(so, st, int(n), *[float(z) for z in v], vary, out)
    elif 'extreme' in case:
        extreme.one(case['extreme'], out, points=True)
    elif 'prob' in case:
        loop.replay_loop(PID, case, out)
    else:
        outside(out)
