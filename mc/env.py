"""Closed-loop exploration: the optimizer against an adversarial objective.

A *problem* fixes bounds, start, options.  The environment answers each
objective call with an action (rho, gkind, hkind): the new objective value is
chosen *relative to the optimizer's current state* so that the ratio of actual
to predicted reduction is rho, gradient and Hessian come from a small
alphabet.  `explore` enumerates every action sequence of a given menu tree by
stateless re-execution of the real Optimizer.
"""

import itertools

import numpy as np

from .core import EPS, INF, NUDGE, Quad, drive, make

NAN = np.nan

_G = {
    'a': [1.0, -2.0, 0.5],
    'b': [-1.0, 0.5, -2.0],
    'c': [0.0, 1.0, 0.0],
    'd': [1e-3, -30.0, 2.0],
    'e': [-0.5, -0.25, 3.0],
    'f': [2.0, 1.0, -1.0],
    'z': [0.0, 0.0, 0.0],
    's': [3e-7, -2e-7, 1e-7],
    't': [3e-5, 2e-5, -1e-5],
    'h': [-1e3, 2e2, 5e2],
}


def scaled(kinds, c):
    """kinds of derivatives, multiplied by c"""
    return [k + f'*{c!r}' for k in kinds]


def grad(kind, n):
    if '*' in kind:
        k, c = kind.split('*')
        return float(c) * grad(k, n)
    if '@' in kind:  # non-finite at one position
        v, i = kind.split('@')
        g = grad('a', n)
        g[int(i)] = float(v)
        return g
    if kind == 'nan':
        g = np.ones(n)
        g[-1] = NAN
        return g
    if kind == 'inf':
        g = np.ones(n)
        g[0] = INF
        return g
    if kind == 'c' and n == 1:
        return np.array([1.0])
    return spread(_G[kind], n)


def spread(v, n):
    """first n entries, continued periodically with growing magnitude"""
    return np.resize(v, n) * (1 + 0.125 * (np.arange(n) // 3))


def hess(kind, n):
    if '*' in kind:
        k, c = kind.split('*')
        return float(c) * hess(k, n)
    if '@' in kind:
        v, i, j = kind.split('@')
        H = hess('p', n)
        H[int(i), int(j)] = float(v)
        return H
    if kind == 'I':
        return np.eye(n)
    if kind == 'p':
        return 1.5 * np.eye(n) + 0.5 * np.ones((n, n))
    if kind == 'i':
        H = 2.0 * np.ones((n, n))
        for i in range(n):
            H[i, i] = 1.0 if i % 2 == 0 else -1.0
        if n == 1:
            H[0, 0] = -0.5
        return H
    if kind == 'n':
        return -np.eye(n)
    if kind == '0':
        return np.zeros((n, n))
    if kind == 'b':
        return 1e3 * hess('p', n)
    if kind == 'q':
        return 1e-3 * hess('p', n)
    if kind == 'k':  # lowest eigenvector (almost) orthogonal to gradient c
        H = np.diag(np.resize([-1.0, 1.0, 2.0], n))
        return H
    if kind == 'r':  # rank one
        v = spread([1.0, -1.0, 2.0], n)
        return np.outer(v, v)
    if kind == 'nan':
        H = np.eye(n)
        H[0, -1] = NAN
        return H
    if kind == 'inf':
        H = np.eye(n)
        H[-1, -1] = INF
        return H
    raise KeyError(kind)


class Prob:
    """one closed-loop configuration"""

    def __init__(self, lb, ub, x0, solver='2D', strat='reflect', init=None,
                 update=None, hess0=None, **opts):
        self.lb = np.array(lb, float)
        self.ub = np.array(ub, float)
        self.x0 = np.array(x0, float)
        self.n = len(x0)
        self.solver = solver
        self.strat = strat
        self.init = init or (1.0, 'a', 'p')
        self.update = update  # None or name of approximation
        self.hess0 = hess0
        self.opts = opts

    def opt(self, name, default=None):
        from fides.constants import DEFAULT_OPTIONS
        from fides import Options

        return self.opts.get(name, DEFAULT_OPTIONS[Options(name)])

    def desc(self):
        return dict(
            lb=self.lb, ub=self.ub, x0=self.x0, solver=self.solver,
            strat=self.strat, init=self.init, update=self.update,
            hess0=self.hess0, opts=self.opts,
        )


def undesc(d):
    f = lambda a: [float(z) for z in a]  # noqa: E731
    opts = {}
    for k, v in d['opts'].items():
        opts[k] = float(v) if isinstance(v, str) else v
    init = tuple(_act(d['init']))
    return Prob(f(d['lb']), f(d['ub']), f(d['x0']), d['solver'], d['strat'],
                init=init, update=d.get('update'), hess0=d.get('hess0'),
                **opts)


def _act(a):
    a = list(a)
    try:
        a[0] = float(a[0])
    except ValueError:
        pass
    return tuple(a)


def answer(prob, snap, x, act, k):
    """objective value, gradient, Hessian for an action"""
    rho, gk, hk = act
    g = grad(gk, prob.n)
    H = hess(hk, prob.n)
    if k == 0:
        return rho, g, H
    if isinstance(rho, str):
        if rho == 'eq':
            return snap.f, g, H
        if rho[0] == '=':  # this value
            return float(rho[1:]), g, H
        if rho not in ('low', 'lowish'):
            return float(rho), g, H
    quad = Quad(snap.x, snap.g, snap.H, prob.lb, prob.ub,
                prob.opt('theta_max'))
    ss, _ = quad.scaled(x)
    pred = -quad.q(ss)
    if not np.isfinite(g).all():
        aug = 0.0
    else:
        aug = 0.5 * np.sum(ss * quad.dv * np.abs(g) * ss)
    if rho == 'low':  # lower value, but less than the scaling correction
        return snap.f - 0.5 * aug, g, H
    if rho == 'lowish':
        return snap.f - 0.9 * aug, g, H
    if pred <= 0:
        return snap.f - rho * 1e-3, g, H
    return snap.f - aug - rho * pred, g, H


def run(prob, acts, maxiter=None, hook=None, limit=30.0, make_opt=None,
        opt_holder=None, start_id=None, alias=None):
    """one execution: acts[k] answers call k (k=0: prob.init)"""
    seq = (prob.init,) + tuple(acts)
    if opt_holder is None:
        mk = make_opt or default_opt
        opt_holder = mk(prob, maxiter if maxiter is not None else len(acts))
    o, h = opt_holder

    def env(k, x, snap):
        act = seq[k] if k < len(seq) else seq[-1]
        ans = answer(prob, snap, x, act, k)
        if hook is not None:
            hook(k, x, snap, ans)
        if prob.update is not None and not needs_hess(prob.update):
            return ans[:2]
        return ans

    return drive(o, prob.x0.copy(), env, hess0=prob.hess0, limit=limit,
                 holder=h, start_id=start_id, alias=alias)


def needs_hess(name):
    return name.startswith('Hybrid')


def approx(name):
    import fides

    if name is None:
        return None
    if ':' in name:
        cls, arg = name.split(':')
        return getattr(fides, cls)(**eval('dict(' + arg + ')'))
    return getattr(fides, name)()


def default_opt(prob, maxiter):
    opts = dict(prob.opts)
    opts['maxiter'] = maxiter
    return make(prob.lb, prob.ub, prob.solver, prob.strat,
                hess_update=approx(prob.update), **opts)


def sequences(menus):
    return itertools.product(*menus)


def deviations(default, alternatives, depth, ndev):
    """all sequences of `depth` actions that deviate from `default` in at most
    `ndev` positions"""
    for k in range(ndev + 1):
        for pos in itertools.combinations(range(depth), k):
            for alts in itertools.product(alternatives, repeat=k):
                seq = [default] * depth
                for p, a in zip(pos, alts):
                    seq[p] = a
                yield tuple(seq)


# --------------------------------------------------------------------------
# reference semantics of one iteration, with error intervals
# --------------------------------------------------------------------------
class Facts:
    """reference analysis of one step (pre, xt, answer)"""

    def __init__(self, prob, st):
        pre = st.pre
        self.prob, self.st = prob, st
        f1 = st.ans[0]
        g1 = st.ans[1]
        q = Quad(pre.x, pre.g, pre.H, prob.lb, prob.ub, prob.opt('theta_max'))
        self.quad = q
        ss, err = q.scaled(st.xt)
        self.ss, self.err = ss, err
        e = np.sqrt(np.sum(err**2))
        nsx = np.sqrt(np.sum(ss**2))
        self.nsx = (nsx - e - 1e-13 * nsx, nsx + e + 1e-13 * nsx)
        val = q.q(ss)
        qe = q.q_err(ss, err) + 1e-300
        self.qval = val
        self.qe = qe
        self.pred = (-val - qe, -val + qe)
        self.finite = bool(np.isfinite(f1))
        self.ratio = None
        self.accept = None
        if not self.finite:
            self.accept = False
            return
        gfin = np.isfinite(g1).all()
        if not gfin:
            return
        w = q.dv * np.abs(g1)
        a = 0.5 * np.sum(w * ss * ss)
        ae = np.sum(w * (np.abs(ss) * err + 0.5 * err**2)) + 1e-14 * a
        self.aug = (a - ae, a + ae)
        fe = 4 * EPS * (abs(pre.f) + abs(f1) + a)
        if a == 0.0 and ae == 0.0:
            # f - f' is a single correctly rounded subtraction
            fe = 0.0 if pre.f == f1 else EPS * abs(pre.f - f1)
        act = pre.f - f1 - a
        self.act = (act - fe - ae, act + fe + ae)
        p0, p1 = self.pred
        a0, a1 = self.act
        if p0 > 0:
            c = [a0 / p0, a0 / p1, a1 / p0, a1 / p1]
            self.ratio = (min(c), max(c))
            if a0 > 0:
                self.accept = True
            elif a1 <= 0:
                self.accept = False
        elif p1 <= 0:
            self.ratio = (0.0, 0.0)
            self.accept = False
        else:  # sign of predicted reduction undecided
            if a1 <= 0:
                self.accept = False

    def next_delta(self):
        """list of (lo, hi) intervals for the next trust region radius"""
        p = self.prob
        d = self.st.pre.delta
        g1, g2 = p.opt('gamma1'), p.opt('gamma2')
        n0, n1 = self.nsx
        shrink = (
            min(g1 * d, max(n0, 0) / 4) * (1 - 1e-12),
            min(g1 * d, n1 / 4) * (1 + 1e-12),
        )
        grow = (g2 * d * (1 - 1e-12), g2 * d * (1 + 1e-12))
        same = (d, d)
        if not self.finite:
            return [shrink]
        if self.ratio is None:
            return [shrink, grow, same]
        r0, r1 = self.ratio
        mu, eta = p.opt('mu'), p.opt('eta')
        out = []
        can_grow = r1 >= eta and n1 >= 0.9 * d
        must_grow = r0 >= eta and n0 >= 0.9 * d
        if can_grow:
            out.append(grow)
        if must_grow:
            return out
        can_shrink = r0 <= mu
        must_shrink = r1 <= mu and not can_grow
        if can_shrink:
            out.append(shrink)
        if must_shrink:
            return out
        if r1 > mu:
            out.append(same)
        return out


def close_x(a, b):
    """equal up to the documented nudge away from the bounds"""
    return np.all(np.abs(a - b) <= NUDGE * (1 + 1e-9)
                  + 2 * np.spacing(np.abs(b)))


def in_bounds(prob, x):
    return bool(np.all(x >= prob.lb) and np.all(x <= prob.ub))
