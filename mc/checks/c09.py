"""C09: strictly convex box-constrained quadratics are solved to their optimum
by complete runs with default budgets."""

import itertools

import numpy as np

from .. import engine
from ..core import COMBOS_FAST, INF, SOLVERS, ExitFlag, drive, make
from ..env import approx, in_bounds

PID = 'C09'
BOUNDS = {
    'quick': 'n=1: 4 curvatures x 7 slopes x 5 boxes x 6 starts; n=2: 7 '
             'Hessians x 25 gradients x 5 boxes x 4 starts (corners, centre, '
             'next to bounds); n=3: 5 Hessians x 8 gradients x 3 boxes x 3 '
             'starts; exact Hessians with all fast solver/strategy pairs '
             '(alternating over problems for 2 of 3 tolerances), BFGS and DFP '
             'with 4; refinement on 90 problems; far starts; default, '
             'tight and gradient-only tolerances',
    'thorough': 'all pairs on all problems, all tolerances, refinement on '
                'every 10th problem',
}
ASSUMPTIONS = ['"matches up to the requested tolerance": the gap to the exact '
               'minimum (active-set enumeration) is at most 1e-6 (exact '
               'Hessians) or 1e-3 (secant) relative to 1+|f*|+1e-3|f0-f*|; '
               'condition numbers up to 1e4 (exact) and 1e2 (secant)']

H2 = [[[1, 0], [0, 1]], [[2, 1], [1, 2]], [[1, -.9], [-.9, 1]],
      [[100, 0], [0, 1]], [[1, 0], [0, 1e-2]], [[1, .99], [.99, 1]],
      [[1e4, 50], [50, 1]]]
G2 = list(itertools.product((-3, -.5, 0, .5, 3), repeat=2))
B2 = [([-1, -1], [1, 1]), ([0, 0], [INF, INF]), ([0, -INF], [1, INF]),
      ([-10, 0], [10, .5]), ([-INF, -INF], [INF, INF])]
S2 = [(.5, .5), (0, 1), (.01, .9), (1, 1)]
H1 = [1e-2, 1, 30, 1e4]
G1 = [-3, -.5, -1e-3, 0, .02, .5, 3]
B1 = [([-1], [1]), ([0], [INF]), ([-INF], [.5]), ([-100], [1]),
      ([-INF], [INF])]
S1 = [0, .001, .3, .5, .999, 1]
H3 = [np.eye(3).tolist(),
      [[2, 1, 0], [1, 2, 1], [0, 1, 2]],
      [[1, -.8, .3], [-.8, 1, -.2], [.3, -.2, .5]],
      [[50, 1, 0], [1, 1, .1], [0, .1, .5]],
      [[1, .6, .6], [.6, 1, .6], [.6, .6, 1]]]
G3 = [(-3, .5, 1), (1, 1, 1), (0, -2, .3), (-1, -1, -1), (5, -5, .1),
      (.2, 0, 0), (-.1, 4, -4), (2, -.5, -.5)]
B3 = [([-1] * 3, [1] * 3), ([0, -INF, -1], [INF, .5, 1]),
      ([0, 0, 0], [INF] * 3)]
S3 = [(.5, .5, .5), (0, 1, .3), (.99, .01, 1)]
TOLS = {'default': {}, 'tight': {'fatol': 0.0, 'frtol': 0.0},
        'grad': {'fatol': 0.0, 'frtol': 0.0, 'gatol': 1e-8}}


def optimum(H, g, lb, ub):
    """exact minimum over the box by enumeration of the active sets"""
    n = len(g)
    best = None
    for act in itertools.product((0, -1, 1), repeat=n):
        x = np.array([lb[i] if a < 0 else ub[i] if a > 0 else 0.0
                      for i, a in enumerate(act)])
        if not np.isfinite(x).all():
            continue
        fr = [i for i in range(n) if act[i] == 0]
        fx = [i for i in range(n) if act[i] != 0]
        if fr:
            rhs = -(g[fr] + (H[np.ix_(fr, fx)] @ x[fx] if fx else 0.0))
            x[fr] = np.linalg.solve(H[np.ix_(fr, fr)], rhs)
        if np.any(x < lb) or np.any(x > ub):
            continue
        f = 0.5 * x @ H @ x + g @ x
        if best is None or f < best[0]:
            best = (f, x)
    return best


def data(n, ih, ig, ib, s, far):
    H, g, B = {1: (H1, G1, B1), 2: (H2, G2, B2), 3: (H3, G3, B3)}[n]
    A = np.array(H[ih], float).reshape(n, n)
    b = np.array(g[ig], float).reshape(n)
    lb, ub = (np.array(z, float) for z in B[ib])
    L = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub - 5, -2.))
    U = np.where(np.isfinite(ub), ub, L + 5)
    s = np.broadcast_to(np.asarray(s, float), (n,))
    x0 = np.clip(L + (U - L) * s, lb, ub)
    if far:
        x0 = np.where(np.isfinite(ub), x0, 1e3 * (1 + s))
    return A, b, lb, ub, x0


def solve(n, ih, ig, ib, s, so, st, upd, tol, far, out):
    H, g, lb, ub, x0 = data(n, ih, ig, ib, s, far)
    fs, xs = optimum(H, g, lb, ub)
    o, h = make(lb, ub, so, st, hess_update=approx(upd), **TOLS[tol])

    def env(k, x, snap):
        a = (0.5 * x @ H @ x + g @ x, H @ x + g, H.copy())
        return a if upd is None else a[:2]

    tr = drive(o, x0, env, holder=h, limit=120)
    case = {'p': [n, ih, ig, ib, s, so, st, upd, tol, far]}
    tag = (f'{so}/{st}/{upd} {tol} H={H.tolist()} g={g.tolist()} box='
           f'{lb.tolist()}..{ub.tolist()} x0={x0.tolist()}:')
    out.add('states')
    out.add('transitions', max(0, len(tr.calls) - 1))
    out.add('traces_validated_against_impl')
    if tr.hang or tr.exc is not None:
        out.violation(f'{tag} {tr.exc!r}', case)
        return
    flag = tr.final.flag
    out.add('exits_' + flag.name)
    if flag in (ExitFlag.MAXITER, ExitFlag.MAXTIME):
        out.violation(f'{tag} not solved within the default budget ({flag!r}, '
                      f'gap {tr.ret[0] - fs:.3g})', case)
        return
    if not in_bounds_(tr.ret[1], lb, ub):
        out.violation(f'{tag} infeasible result {tr.ret[1]}', case)
    f0 = 0.5 * x0 @ H @ x0 + g @ x0
    lim = (1e-6 if upd is None else 1e-3) * (
        1 + abs(fs) + 1e-3 * abs(f0 - fs))
    gap = tr.ret[0] - fs
    if gap > lim:
        out.violation(f'{tag} result {tr.ret[0]!r} at {tr.ret[1]} misses the '
                      f'minimum {fs!r} at {xs} by {gap:.3g} ({flag!r})',
                      case)
    elif gap < -1e-9 * (1 + abs(fs)):
        out.violation(f'{tag} result {tr.ret[0]!r} below the minimum {fs!r}',
                      case)
    if not out.samples:
        out.sample({'x0': x0, 'x': tr.ret[1], 'x*': xs, 'f-f*': gap,
                    'flag': flag.name})


def in_bounds_(x, lb, ub):
    return bool(np.all(x >= lb) and np.all(x <= ub))


def problems(n):
    H, g, B, S = {1: (H1, G1, B1, S1), 2: (H2, G2, B2, S2),
                  3: (H3, G3, B3, S3)}[n]
    yield from itertools.product(range(len(H)), range(len(g)),
                                 range(len(B)), S)


SEC = [('2D', 'reflect'), ('full', 'mixed'), ('scg', 'reflect'),
       ('full', 'truncate')]


def jobs(tier):
    quick = tier == 'quick'
    for n in (1, 2, 3):
        for k, (ih, ig, ib, s) in enumerate(problems(n)):
            for j, (so, st) in enumerate(COMBOS_FAST):
                for t, tol in enumerate(TOLS):
                    if quick and (j + k) % (3 if t == 0 else 9) != t:
                        continue
                    yield n, ih, ig, ib, s, so, st, None, tol, False
            cond = np.linalg.cond(data(n, ih, ig, ib, s, False)[0])
            if n == 1 and H1[ih] > 1e2 or cond > 1.1e2:
                continue
            for j, (so, st) in enumerate(SEC if quick else COMBOS_FAST):
                for u, upd in enumerate(('BFGS', 'DFP')):
                    if not quick or (j + k) % 4 == u:
                        yield n, ih, ig, ib, s, so, st, upd, 'default', False
            if any(u == INF for u in {1: B1, 2: B2, 3: B3}[n][ib][1]):
                so, st = COMBOS_FAST[k % len(COMBOS_FAST)]
                yield n, ih, ig, ib, s, so, st, None, 'default', True
    ref = [p for n in (2, 3) for p in ((n, *q) for q in problems(n))]
    for i, (n, ih, ig, ib, s) in enumerate(ref[::50 if quick else 10]):
        for so in SOLVERS[:2]:
            yield n, ih, ig, ib, s, so, 'refine', None, 'default', False


def tasks(tier):
    a, b = [], []
    for j in jobs(tier):
        (b if j[6] == 'refine' else a).append(j)
    return [[j] for j in b] + [a[i:i + 150] for i in range(0, len(a), 150)]


def work(task):
    out = engine.Out()
    for j in task:
        solve(*j, out)
        if len(out.viol) > 2:
            break
    return out


def replay(c, out):
    n, ih, ig, ib, s, so, st, upd, tol, far = c['p']
    s = [float(z) for z in s] if isinstance(s, list) else float(s)
    solve(n, ih, ig, ib, s, so, st, upd, tol, far, out)


__all__ = ['in_bounds']
