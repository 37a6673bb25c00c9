"""Derivatives, radii and distances of extreme (but not over- or
underflowing) magnitude: each iteration still ends and stays at finite,
feasible points (C01, C11)."""

import itertools

import numpy as np

from . import core, engine
from .core import COMBOS_FAST, INF

BOXES = (
    ([-INF, -INF], [INF, INF], [0.5, 0.5]),
    ([0.0, -1.0], [1.0, INF], [0.5, 0.5]),
    ([0.0, 0.0], [1.0, 1.0], [1e-9, 0.5]),
    ([-1e50, -1e50], [1e50, INF], [1e45, -5.0]),
)
RADII = (1.0, 1e-12, 1e15)
GS = (1e50, 1e30, -1e-50, 1e-8, -1e40, 0.0)
HS = (
    [[1, 0], [0, 1]],
    [[1e50, 0], [0, 1]],
    [[1e-50, 0], [0, 1e-50]],
    [[1e50, 1e45], [1e45, -1e50]],
    [[0, 0], [0, 0]],
    [[-1e-50, 0], [0, 1e5]],
    [[1e50, 1e50], [1e50, 1e50]],
    [[-1e50, 1], [1, -1e50]],
)


def tasks(quick):
    out = []
    for (so, st), b in itertools.product(COMBOS_FAST, range(len(BOXES))):
        for d in RADII:
            out.append(('extreme', so, st, b, d, 2 if quick else 1))
    return out


def one(spec, out, points):
    so, st, b, d, g, H = spec
    lb, ub, x0 = BOXES[int(b)]
    g = np.array([float(z) for z in g])
    H = np.array([[float(z) for z in r] for r in H])
    o, h = core.make(lb, ub, so, st, maxiter=3, delta_init=float(d))
    tr = core.drive(o, np.array(x0, float),
                    lambda k, x, s: (float(-k), g.copy(), H.copy()),
                    holder=h, limit=10)
    out.add('traces_validated_against_impl')
    out.add('states', len(tr.calls))
    out.add('transitions', max(0, len(tr.calls) - 1))
    case = {'extreme': [so, st, b, d, list(g), [list(r) for r in H]]}
    if points:
        pts = [c[0] for c in tr.calls] + [tr.final.x]
        for x in pts:
            if not (np.isfinite(x).all() and np.all(x >= lb)
                    and np.all(x <= ub)):
                out.violation(f'infeasible or undefined point {x}', case)
    elif tr.hang:
        out.violation(f'iteration {len(tr.calls)} did not end', case)
    elif tr.exc is not None:
        out.violation(f'run ended with {tr.exc!r}', case)


def work(task, points):
    out = engine.Out()
    _, so, st, b, d, step = task
    for i, (g, H) in enumerate(itertools.product(
            itertools.product(GS, repeat=2), HS)):
        if (i + i // 8) % step == 0:
            one([so, st, b, d, list(g), H], out, points)
            if out.viol and len(out.viol) >= 3:
                break
    return out
