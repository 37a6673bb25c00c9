"""C08: exactness of the line subproblem, decided in exact rational
arithmetic."""

import itertools
from fractions import Fraction as F

import numpy as np
from fides.subproblem import solve_1d_trust_region_subproblem

from .. import engine
from ..core import Hang, cpu_limit

PID = 'C08'
BOUNDS = {
    'quick': 'n=1: curvature 9 x slope 9 x direction 4 x offset 7 x radius 7; '
             'n=2: 30 matrices x 16 gradients x 8 directions x 9 offsets '
             '(inside, on and next to the boundary) x 3 radii; n=3: 6 x 6 x '
             '5 x 5 x 3; 16 scalings; '
             'directions of length 1e-14 .. 1e12',
    'thorough': 'twice as many values per component',
}


def frac(a):
    return [F(float(z)) for z in np.asarray(a, float).ravel()]


def judge(B, g, s, D, s0, out):
    case = {'B': B, 'g': g, 's': s, 'D': D, 's0': s0}
    out.add('states')
    before = [z.copy() for z in (B, g, s, s0)]
    try:
        with cpu_limit(10):
            tau = solve_1d_trust_region_subproblem(B, g, s, D, s0)
    except Hang:
        out.violation('line subproblem does not terminate', case)
        return
    except Exception as e:  # noqa: BLE001
        out.violation(f'line subproblem raised {e!r}', case)
        return
    out.add('transitions')
    if not all(np.array_equal(a, b) for a, b in zip(before, (B, g, s, s0))):
        out.violation('line subproblem modified its inputs', case)
        return
    tau = np.asarray(tau)
    if tau.shape != (1,) or not np.isfinite(tau[0]):
        out.violation(f'line subproblem returned {tau!r}', case)
        return
    t = F(float(tau[0]))
    n = len(g)
    fs, f0, fg = frac(s), frac(s0), frac(g)
    fB = [frac(r) for r in B]
    Bs = [sum(fB[i][j] * fs[j] for j in range(n)) for i in range(n)]
    a = sum(fs[i] * Bs[i] for i in range(n))
    b = sum(fs[i] * fg[i] for i in range(n)) + sum(
        f0[i] * Bs[i] for i in range(n))
    ss = sum(z * z for z in fs)
    s0s = sum(p * q for p, q in zip(f0, fs))
    c = sum(z * z for z in f0) - F(D) ** 2
    # feasibility, relative to the radius
    nrm = float(ss * t * t + 2 * s0s * t + c) / float(F(D) ** 2)
    if nrm > 1e-9:
        out.violation(f'tau={float(t)!r} leaves the trust region '
                      f'(relative excess {nrm:.2e})', case)
        return
    # end points of the chord (high precision rational square root)
    disc = s0s * s0s - ss * min(c, F(0))
    r = F(sqrt_frac(disc))
    lo, hi = (-s0s - r) / ss, (-s0s + r) / ss
    if lo > hi:
        return

    def q(z):
        return a * z * z / 2 + b * z

    cand = [lo, hi]
    if a > 0 and lo <= -b / a <= hi:
        cand.append(-b / a)
    best = min(q(z) for z in cand)
    mag = (abs(a) * max(lo * lo, hi * hi) + abs(b) * max(abs(lo), abs(hi)))
    if float(q(t) - best) > 1e-8 * float(mag) + 0.0:
        out.violation(
            f'tau={float(t)!r}: value {float(q(t))!r} above minimum '
            f'{float(best)!r} on [{float(lo)!r}, {float(hi)!r}]', case)
    if not out.samples and a > 0:
        out.sample({**case, 'tau': float(t), 'minimum': float(best)})


def sqrt_frac(x):
    """square root to ~60 digits"""
    import math

    if x <= 0:
        return F(0)
    k = 10 ** 40
    n = int(x.numerator * k * k)
    d = x.denominator
    # keep enough digits for tiny numbers
    e = 0
    while n < d * 10 ** 60:
        n *= 10 ** 20
        e += 1
    return F(math.isqrt(n // d), k * 10 ** (10 * e))


def tasks(tier):
    quick = tier == 'quick'
    out = [('n1', d) for d in (1.0, -1.0, 0.25, 3.0)]
    ent = [-2.0, -1.0, 0.0, 0.5, 1.0]
    for a, c in itertools.product(ent, repeat=2):
        for b in (0.0, 0.7) if quick else (0.0, 0.7, -1.3, 2.0):
            out.append(('n2', (a, b, c), quick))
    M3 = [np.diag([1.0, 2.0, 3.0]), np.diag([-1.0, 0.0, 1.0]), np.ones((3, 3)),
          np.array([[1.0, 2, 0], [2, -1, 0.5], [0, 0.5, 0.1]]),
          np.zeros((3, 3)), -np.eye(3)]
    for m in range(6):
        out.append(('n3', M3[m].tolist()))
    return out


def offsets(D, n):
    out = [np.zeros(n)]
    if n == 2:
        for ang in (0.0, 0.9, 2.5, 4.0):
            u = np.array([np.cos(ang), np.sin(ang)])
            out += [0.4 * D * u, D * u]
        out += [np.array([D * (1 - 1e-9), 0.0])]
    else:
        for u in ([1.0, 0, 0], [0.6, 0.0, -0.8], [1 / 3, 2 / 3, 2 / 3]):
            out += [0.5 * D * np.array(u), D * np.array(u)]
    return out


def inside(s0, D):
    """offsets that may exceed the radius by rounding only"""
    return np.linalg.norm(s0) <= D * (1 + 4e-16)


def work(task):
    out = engine.Out()
    if task[0] == 'n1':
        s = np.array([task[1]])
        for a, g in itertools.product(
            [-1e3, -1.0, -1e-6, 0.0, 1e-6, 0.5, 1.0, 20.0, 1e4],
            [-1e3, -1.0, -1e-4, 0.0, 1e-9, 0.3, 2.0, -7.0, 1e4],
        ):
            for D in (1e-18, 1e-15, 1e-6, 0.1, 1.0, 30.0, 1e5):
                for r in (0.0, 0.5, -0.5, 1.0, -1.0, 0.999, 1e-9):
                    judge(np.array([[a]]), np.array([g]), s, D,
                          np.array([r * D]), out)
    elif task[0] == 'n2':
        a, b, c = task[1]
        B = np.array([[a, b], [b, c]])
        gv = [-1.0, 0.0, 0.3, 5.0]
        dirs = [(1.0, 0.0), (0.0, 1.0), (0.6, 0.8), (-0.8, 0.6), (3.0, -1.0),
                (0.1, 0.01), (-1.0, -1.0), (1e-3, 1.0)]
        for g in itertools.product(gv, repeat=2):
            for d in dirs:
                for D in (1e-3, 1.0, 50.0):
                    for s0 in offsets(D, 2):
                        if inside(s0, D):
                            judge(B, np.array(g), np.array(d), D, s0, out)
        for sb, st in itertools.product([1e-16, 1e-8, 1.0, 1e8], [1e-15, 1e-6, 1.0, 1e4]):
            for g in ((1.0, -0.3), (0.0, 0.0), (0.0, 2.0)):
                for s0 in offsets(st, 2)[:4]:
                    if inside(s0, st):
                        judge(B * sb, np.array(g) * sb * st,
                              np.array([0.6, -0.8]), st, s0, out)
        # directions of any length
        for c in (1e-14, 1e-9, 1e-5, 1e6, 1e12):
            for g in ((1.0, -0.3), (0.0, 2.0)):
                for d in ((0.6, 0.8), (-1.0, 0.1)):
                    for D in (1e-3, 1.0):
                        for s0 in offsets(D, 2)[:4]:
                            if inside(s0, D):
                                judge(B, np.array(g), c * np.array(d), D, s0,
                                      out)
    else:
        B = np.array(task[1])
        for g in itertools.product([-1.0, 0.0, 2.0], repeat=3):
            for d in ((1.0, 0, 0), (0.6, 0.0, 0.8), (1.0, 1.0, 1.0),
                      (0.0, -0.5, 0.1)):
                for D in (1e-2, 1.0, 40.0):
                    for s0 in offsets(D, 3):
                        if inside(s0, D):
                            judge(B, np.array(g), np.array(d), D, s0, out)
    return out


def replay(c, out):
    v = lambda a: np.array([float(z) for z in a])  # noqa: E731
    B = np.array([[float(z) for z in r] for r in c['B']])
    judge(B, v(c['g']), v(c['s']), float(c['D']), v(c['s0']), out)
