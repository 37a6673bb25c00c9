"""Independent reference implementation of the step candidates of the interior
trust-region reflective method, working on a core.Quad model.  Every candidate
returns (q value, well-posed flag); ill-posed (ties, hard cases) ones are
dropped by the caller, they are never compared."""

import numpy as np

TIE = 1e-7


def tr_global(M, g, delta):
    """global minimizer of 1/2 s'Ms + g's, |s|<=delta; second value False if
    the minimizer is not unique / ill-conditioned"""
    M = 0.5 * (M + M.T)
    lam, V = np.linalg.eigh(M)
    b = -V.T @ g
    sc = max(np.max(np.abs(lam)), 1e-300)
    gn = np.linalg.norm(g)
    if lam[0] > 1e-12 * sc:
        c = b / lam
        if np.linalg.norm(c) <= delta:
            return V @ c, True
    # boundary solution: |b/(lam+mu)| = delta, mu > -lam0, mu >= 0
    lo = max(0.0, -lam[0])
    ismin = lam - lam[0] <= 1e-9 * sc
    bm = np.linalg.norm(b[ismin])
    if gn == 0:
        return np.zeros_like(g), False
    hard = lo > 0 or lam[0] <= 1e-12 * sc

    def nrm(mu):
        with np.errstate(all='ignore'):
            return np.linalg.norm(b / (lam + mu))

    if hard and bm <= 1e-5 * gn:
        return np.zeros_like(g), False
    hi = lo + gn / delta + sc * 1e-12
    while nrm(hi) > delta:
        hi = lo + 2 * (hi - lo) + 1e-300
    a, c = lo, hi
    for _ in range(200):
        m = 0.5 * (a + c)
        if m <= a or m >= c:
            break
        if nrm(m) > delta:
            a = m
        else:
            c = m
    s = V @ (b / (lam + c))
    return s, True


def breakpoints(x, s, lb, ub):
    br = np.full(len(x), np.inf)
    for i in range(len(x)):
        if s[i] > 0:
            br[i] = (ub[i] - x[i]) / s[i]
        elif s[i] < 0:
            br[i] = (lb[i] - x[i]) / s[i]
    return br


def line_min(M, g, s0, d, delta):
    """tau minimizing the quadratic on s0 + tau d within the ball; None if
    both end points are (nearly) equally good"""
    a = d @ M @ d
    b = d @ (g + 0.5 * (M + M.T) @ s0)
    dd, sd = d @ d, s0 @ d
    c = s0 @ s0 - delta**2
    disc = np.sqrt(max(sd**2 - dd * min(c, 0.0), 0.0))
    t = [(-sd - disc) / dd, (-sd + disc) / dd]
    if a > 0:
        t0 = -b / a
        if t[0] <= t0 <= t[1]:
            return t0
    v = [0.5 * a * z * z + b * z for z in t]
    mag = abs(a) * (t[0] ** 2 + t[1] ** 2) + abs(b) * (abs(t[0]) + abs(t[1]))
    if abs(v[0] - v[1]) <= 1e-6 * mag and t[1] - t[0] > 0:
        return None
    return t[0] if v[0] < v[1] else t[1]


class Cand:
    """a step before (og) and after step-back, with offset s0"""

    def __init__(self, quad, off, og):
        self.q = quad
        self.off = off  # scaled offset
        self.og = og  # scaled step before step-back
        D = quad.D
        self.x = quad.x + D * off
        self.br = breakpoints(self.x, D * og, quad.lb, quad.ub)
        self.min = np.min(self.br)
        self.alpha = min(1.0, quad.theta * self.min)
        self.ss = off + self.alpha * og
        self.val = quad.q(self.ss)
        fin = self.br[np.isfinite(self.br)]
        # ties between break points: which variables are reflected is
        # decided by rounding
        near = np.abs(fin - self.min) <= 1e-6 * max(abs(self.min), 1e-300)
        self.imin = np.where(self.br == self.min)[0]
        self.tie = np.count_nonzero(near) > 1 and not (
            # same operations on the same numbers
            getattr(quad, 'exact', False)
            and np.all(fin[near] == self.min)
        )
        self.stepped_back = self.alpha < 1.0
        self.clear = abs(quad.theta * self.min - 1.0) > 1e-6 or not (
            np.isfinite(self.min)
        )


def reflect(quad, cand, delta):
    al = min(cand.min, 1.0)
    off = cand.off + al * cand.og
    d = cand.og.copy()
    d[cand.imin] *= -1
    n = np.linalg.norm(d)
    if n == 0:
        return None
    d /= n
    if np.linalg.norm(off) > delta * (1 - 1e-9):
        return None  # on the boundary: direction decided by rounding
    tau = line_min(quad.M, quad.sg, off, d, delta)
    if tau is None:
        return None
    return Cand(quad, off, tau * d)


def truncate(quad, cand, delta, sub):
    """fix the variables that hit their bound at theta times the way and
    re-solve in what remains of the subspace (columns of sub)"""
    off = cand.off.copy()
    for i in cand.imin:
        off[i] += quad.theta * cand.br[i] * cand.og[i]
    sub = sub.copy()
    sub[cand.imin] = 0.0
    og = np.zeros_like(off)
    u, sv, _ = np.linalg.svd(sub, full_matrices=False)
    if np.any((sv > 1e-14) & (sv < 1e-6)):
        return None, None  # dimension decided by rounding
    sub = u[:, sv >= 1e-6]
    sub[np.all(np.abs(sub) < 1e-14, axis=1)] = 0.0
    if sub.shape[1]:
        rad2 = delta**2 - off @ off
        if rad2 <= 1e-12 * delta**2:
            return None, None
        if sub.shape[1] == 1:
            d = sub[:, 0]
            tau = line_min(quad.M, quad.sg, off, d, delta)
            if tau is None:
                return None, None
            og = tau * d
        else:
            s, ok = tr_global(
                sub.T @ quad.M @ sub, sub.T @ (quad.sg + quad.M @ off),
                np.sqrt(rad2)
            )
            if not ok:
                return None, None
            og = sub @ s
    return Cand(quad, off, og), sub


def steihaug(M, g, delta):
    n = len(g)
    z = np.zeros(n)
    r = g.copy()
    d = -r
    gn = np.linalg.norm(g)
    eps = min(0.5, np.sqrt(gn)) * gn
    if gn == 0:
        return z, True
    if abs(gn - eps) <= 1e-9 * gn:
        return z, False
    if gn <= eps:
        return z, True
    for _ in range(20 * n):
        Bd = M @ d
        c = d @ Bd
        if abs(c) <= 1e-12 * np.linalg.norm(d) * np.linalg.norm(Bd):
            return z, False
        dd, zd = d @ d, z @ d
        disc = np.sqrt(max(zd**2 - dd * (z @ z - delta**2), 0))
        if c <= 0:
            ts = [(-zd - disc) / dd, (-zd + disc) / dd]
            q = [0.5 * (z + t * d) @ M @ (z + t * d) + g @ (z + t * d)
                 for t in ts]
            if abs(q[0] - q[1]) <= 1e-9 * (abs(q[0]) + abs(q[1])):
                return z, False
            return z + ts[int(q[1] < q[0])] * d, True
        al = (r @ r) / c
        zp = z + al * d
        nz = np.linalg.norm(zp)
        if abs(nz - delta) <= 1e-9 * delta:
            return z, False
        if nz > delta:
            return z + (-zd + disc) / dd * d, True
        rp = r + al * Bd
        rn = np.linalg.norm(rp)
        if abs(rn - eps) <= 1e-6 * eps:
            return z, False
        if rn < eps:
            return zp, True
        beta = (rp @ rp) / (r @ r)
        d = -rp + beta * d
        z, r = zp, rp
    return z, False


def subspace2d(M, g, D, delta):
    """basis of the two-dimensional subspace, None if ill-posed; n >= 2"""
    lam, V = np.linalg.eigh(0.5 * (M + M.T))
    sc = np.max(np.abs(lam))
    if lam[0] > 1e-9 * sc:
        newt = -np.linalg.solve(M, g)
        if np.linalg.norm(newt) < delta * (1 - 1e-9):
            return np.array([newt / np.linalg.norm(newt)]).T
        B = np.array([newt, g]).T
    elif lam[0] < -1e-9 * sc:
        if lam[1] - lam[0] <= 1e-6 * sc:
            return None
        sgn = np.sign(g) + (g == 0)
        B = np.array([V[:, 0], D * sgn]).T
    else:
        return None
    B = B / np.linalg.norm(B, axis=0)
    u, s, _ = np.linalg.svd(B, full_matrices=False)
    if s[1] < 1e-5:
        return None
    return u


def candidates(quad, delta, solver, strat):
    """list of (name, q value) that the proposed step must not be worse
    than"""
    M, g, n = quad.M, quad.sg, len(quad.x)
    out = []
    quad.exact = solver in ('full', 'scg') and np.array_equal(
        M, np.diag(np.diag(M)))
    tr, ok = None, False
    sub = None
    if solver == 'full' or n == 1:
        if solver == 'scg':
            tr, ok = steihaug(M, g, delta)
        else:
            tr, ok = tr_global(M, g, delta)
            sub = np.eye(n)
    elif solver == '2D':
        B = subspace2d(M, g, quad.D, delta)
        if B is not None:
            c, ok = tr_global(B.T @ M @ B, B.T @ g, delta)
            tr = B @ c
            sub = np.eye(n) if B.shape[1] == n else B
    else:
        tr, ok = steihaug(M, g, delta)
    if not ok or not np.any(tr):
        # only the guarantees that hold for any trust region step
        return out, None
    base = Cand(quad, np.zeros(n), tr)
    out.append(('trust-region step after step-back', base.val))
    if not base.stepped_back or not base.clear or n == 1:
        return out, base
    gn = np.linalg.norm(g)
    d = g / gn
    tau = line_min(M, g, np.zeros(n), d, delta)
    if tau is not None:
        out.append(('steepest descent after step-back',
                    Cand(quad, np.zeros(n), tau * d).val))
    if strat in ('reflect', 'reflect_single', 'mixed') and not base.tie:
        cand = base
        for i in range(1 if strat == 'reflect_single' else n):
            if cand is None or cand.tie or not np.isfinite(cand.min):
                break
            cand = reflect(quad, cand, delta)
            if cand is None:
                break
            out.append((f'reflection {i + 1}', cand.val))
            if not cand.stepped_back or not cand.clear:
                break
    if strat in ('truncate', 'mixed') and sub is not None and not base.tie:
        cand = base
        for i in range(n):
            if cand is None or cand.tie or not cand.stepped_back or (
                not cand.clear
            ):
                break
            cand, sub = truncate(quad, cand, delta, sub)
            if cand is None:
                break
            out.append((f'truncation {i + 1}', cand.val))
            if not sub.shape[1]:
                break
    return out, base
