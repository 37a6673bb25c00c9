"""residual-mode environments: an adversary that answers with residual vectors
and derivatives from a small alphabet"""

import numpy as np

from .core import drive, make
from .env import approx

_R = [
    [1.0, -0.5, 0.25, 2.0],
    [0.5, 0.5, -0.5, 0.1],
    [-0.2, 0.1, 0.4, -0.3],
    [2.0, 1.0, -1.0, 1.5],
    [0.0, 0.3, 0.0, -0.1],
    [1e-3, -2e-3, 1e-3, 5e-4],
    [0.0, 0.0, 0.0, 0.0],
]
_J = [
    [[1.0, 0.5, 0.0], [-0.5, 1.0, 0.25], [0.3, 0.2, 1.0], [0.0, -1.0, 0.5]],
    [[0.2, -1.0, 0.3], [1.0, 0.1, -0.5], [0.5, 0.5, 0.5], [1.0, 0.0, -1.0]],
    [[-1.0, 2.0, 1.0], [2.0, -1.0, 0.5], [0.0, 0.3, -2.0], [0.7, 0.7, 0.1]],
    [[0.1, 0.0, 0.0], [0.0, 0.1, 0.0], [0.0, 0.0, 0.1], [0.05, 0.0, 0.0]],
]


def res(i, m):
    """residual i of the alphabet; negative numbers scale: (i, scale)"""
    if isinstance(i, (list, tuple)):
        return np.array(_R[i[0]][:m]) * i[1]
    return np.array(_R[i][:m])


def jac(j, m, n):
    return np.array([r[:n] for r in _J[j][:m]])


class RProb:
    def __init__(self, lb, ub, x0, m, update=None, solver='2D',
                 strat='reflect', hess0=None, init=(3, 0), **opts):
        self.lb, self.ub = np.array(lb, float), np.array(ub, float)
        self.x0 = np.array(x0, float)
        self.n, self.m = len(x0), m
        self.update, self.solver, self.strat = update, solver, strat
        self.hess0, self.init, self.opts = hess0, init, opts

    def opt(self, name):
        from fides import Options
        from fides.constants import DEFAULT_OPTIONS

        return self.opts.get(name, DEFAULT_OPTIONS[Options(name)])

    def desc(self):
        return dict(lb=self.lb, ub=self.ub, x0=self.x0, m=self.m,
                    update=self.update, solver=self.solver, strat=self.strat,
                    hess0=self.hess0, init=self.init, opts=self.opts)


def rundesc(d):
    f = lambda a: [float(z) for z in a]  # noqa: E731
    opts = {k: float(v) if isinstance(v, str) else v
            for k, v in d['opts'].items()}
    return RProb(f(d['lb']), f(d['ub']), f(d['x0']), d['m'], d['update'],
                 d['solver'], d['strat'], d['hess0'],
                 init=tuple(d['init']), **opts)


def rmake(prob, maxiter):
    opts = dict(prob.opts)
    opts['maxiter'] = maxiter
    return make(prob.lb, prob.ub, prob.solver, prob.strat,
                hess_update=approx(prob.update), resfun=True, **opts)


def _unfl(i):
    if isinstance(i, (list, tuple)):
        return [int(i[0]), float(i[1])]
    return i


def rrun(prob, acts, maxiter=None, oh=None, alias=None, limit=30.0,
         start_id=None):
    """acts[k] = (residual index, jacobian index) answered at call k+1"""
    seq = (prob.init,) + tuple(acts)
    o, h = oh or rmake(prob, len(acts) if maxiter is None else maxiter)

    def env(k, x, snap):
        a = seq[k] if k < len(seq) else seq[-1]
        return res(_unfl(a[0]), prob.m), jac(a[1], prob.m, prob.n)

    return drive(o, prob.x0.copy(), env, hess0=prob.hess0, holder=h,
                 alias=alias, limit=limit, start_id=start_id)


def fgH(ans):
    r, J = np.asarray(ans[0]), np.asarray(ans[1])
    return 0.5 * r @ r, J.T @ r, J.T @ J
