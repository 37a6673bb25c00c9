"""C07: global optimality of the n-dimensional subproblem solver, certified by
a lower bound from weak duality."""

import itertools

import numpy as np
from fides.subproblem import solve_nd_trust_region_subproblem

from .. import engine, loop
from ..core import INF, Hang, cpu_limit
from ..env import Prob, default_opt

PID = 'C07'
BOUNDS = {
    'quick': 'n=1,2: all matrices with entries in 6 values; n=3: entries in '
             '{-1,0,1}; spectra from 8 values x 3 rotations for n=2,3,4; '
             'gradients from 4-8 values per (eigen)component incl. 0, 1e-9, '
             '1e-5; 4-5 radii; 20 joint scalings (1e-30..1e8)',
    'thorough': 'all gradients/radii/scalings on all matrices',
}
RAD = [1e-3, 0.5, 1.0, 30.0]


def dual(B, g, D):
    """best lower bound of the minimum over the ball (weak duality)"""
    e, V = np.linalg.eigh(0.5 * (B + B.T))
    w = V.T @ g
    lo = max(0.0, -e[0])
    gn = np.linalg.norm(g)
    sc = max(np.abs(e).max(), gn / D, 1e-300)

    def d(lam):
        el = e + lam
        ok = el > 1e-14 * sc
        if np.any(~ok & (np.abs(w) > 1e-12 * max(gn, 1e-300))):
            return -np.inf
        return -0.5 * np.sum(w[ok] ** 2 / el[ok]) - 0.5 * lam * D * D

    def nrm(lam):
        el = e + lam
        with np.errstate(all='ignore'):
            return np.linalg.norm(np.where(w == 0, 0, w / el))

    best = d(lo)
    hi = lo + gn / D + 1e-300
    a, b = lo, hi
    for _ in range(120):
        m = 0.5 * (a + b)
        if m <= a or m >= b:
            break
        if nrm(m) > D:
            a = m
        else:
            b = m
    return max(best, d(a), d(b), d(hi))


def judge(B, g, D, out):
    case = {'B': B, 'g': g, 'D': D}
    out.add('states')
    B0, g0 = B.copy(), g.copy()
    try:
        with cpu_limit(10):
            s, kind = solve_nd_trust_region_subproblem(B, g, D)
    except Hang:
        out.violation('subproblem solver does not terminate', case)
        return
    except Exception as e:  # noqa: BLE001
        out.violation(f'subproblem solver raised {e!r}', case)
        return
    out.add('transitions')
    if not (np.array_equal(B, B0) and np.array_equal(g, g0)):
        out.violation('subproblem solver modified its inputs', case)
        return
    s = np.asarray(s)
    if s.shape != g.shape or not np.all(np.isfinite(s)):
        out.violation(f'solution {s}', case)
        return
    n = np.linalg.norm(s)
    if n > D * (1 + 3e-8):
        out.violation(f'solution norm {n!r} exceeds radius {D!r}', case)
        return
    q = 0.5 * s @ B @ s + g @ s
    low = dual(B, g, D)
    mag = np.abs(B).max() * D * D + np.linalg.norm(g) * D
    if q > low + 1e-5 * abs(low) + 1e-12 * mag:
        out.violation(
            f'value {q!r} above global minimum {low!r} ({kind})', case)
    if not out.samples and kind == 'hard':
        out.sample({**case, 's': s, 'q': q, 'lower_bound': low,
                    'case': kind})


def rotations(n):
    out = [np.eye(n)]
    v = np.arange(1.0, n + 1)
    out.append(np.eye(n) - 2 * np.outer(v, v) / (v @ v))
    R = np.eye(n)
    for i in range(n - 1):
        G = np.eye(n)
        c, s = np.cos(0.7 + i), np.sin(0.7 + i)
        G[i, i] = G[i + 1, i + 1] = c
        G[i, i + 1], G[i + 1, i] = s, -s
        R = R @ G
    out.append(R)
    return out


def tasks(tier):
    quick = tier == 'quick'
    out = []
    E2 = [-2.0, -1.0, 0.0, 0.5, 1.0, 3.0]
    for a in itertools.product(E2, repeat=2):
        out.append(('e2', a, E2, quick))
    for a in itertools.product([-1.0, 0.0, 1.0], repeat=3):
        out.append(('e3', a, quick))
    for a in E2 + [1e-9, -1e-9, 1e6]:
        out.append(('e1', a))
    ev = [-2.0, -1.0, -1.0 + 1e-9, -1e-3, 0.0, 1.0, 1.0 + 1e-12, 20.0]
    for n in (2, 3, 4):
        for sp in itertools.combinations_with_replacement(ev, n):
            out.append(('spec', sp, quick))
    for so in ('full',):
        for n in (1, 2, 3, 4):
            out.append(('sys', n, quick))
    return out


def work(task):
    out = engine.Out()
    k = task[0]
    G2 = [-2.0, -1.0, -0.3, 0.0, 1e-9, 1e-5, 0.1, 1.0]
    if k == 'e1':
        for g in G2 + [1e6, -1e-6]:
            for D in RAD + [1e-8, 1e6]:
                judge(np.array([[task[1]]]), np.array([g]), D, out)
    elif k == 'e2':
        a, b = task[1]
        for c in task[2]:
            B = np.array([[a, b], [b, c]])
            for g in itertools.product(G2, repeat=2):
                for D in RAD:
                    judge(B, np.array(g), D, out)
            for g in itertools.product([0.0, 1.0, -0.3], repeat=2):
                for sb, st in itertools.product([1e-18, 1e-8, 1.0, 1e8],
                                                [1e-30, 1e-17, 1e-6, 1.0,
                                                 1e4]):
                    judge(B * sb, np.array(g) * sb * st, 0.7 * st, out)
    elif k == 'e3':
        a, b, c = task[1]
        for d, e, f in itertools.product([-1.0, 0.0, 1.0], repeat=3):
            B = np.array([[a, b, c], [b, d, e], [c, e, f]])
            G = [-1.0, 0.0, 0.3, 1e-9] if not task[2] else [-1.0, 0.0, 0.3]
            for g in itertools.product(G, repeat=3):
                for D in (RAD if not task[2] else [0.5, 30.0]):
                    judge(B, np.array(g), D, out)
    elif k == 'spec':
        sp = np.array(task[1])
        n = len(sp)
        C = [0.0, 1.0, -1e-9, 1e-5, -3.0]
        if task[2] and n > 2:
            C = [0.0, 1.0, -1e-9] if n == 3 else [0.0, 1.0]
        for R in rotations(n):
            B = (R * sp) @ R.T
            B = 0.5 * (B + B.T)
            for w in itertools.product(C, repeat=n):
                g = R @ np.array(w)
                for D in (0.5, 1.0, 30.0):
                    judge(B, g, D, out)
                if not task[2] or R is not None and w[0] == 0:
                    for sb, st in ((1e-6, 1e3), (1e5, 1e-4)):
                        judge(B * sb, g * sb * st, 2.0 * st, out)
    else:
        system(task[1], task[2], out)
    return out


def system(n, quick, out):
    """first trial point of an unconstrained full-space run"""
    ev = [-1.0, 0.0, 2.0]
    for sp in itertools.combinations_with_replacement(ev, n):
        for R in rotations(n):
            B = (R * np.array(sp)) @ R.T
            B = 0.5 * (B + B.T)
            for w in itertools.product([0.0, 1.0, -0.2], repeat=n):
                g = R @ np.array(w)
                if not np.any(w):
                    continue
                for D in (0.1, 3.0):
                    syscase(B, g, D, out)


def syscase(B, g, D, out):
    from ..core import drive

    n = len(g)
    p = Prob([-INF] * n, [INF] * n, [0.0] * n, 'full', 'reflect',
             delta_init=D, **loop.NOCONV)
    o, h = default_opt(p, 1)
    tr = drive(o, p.x0.copy(), lambda k, x, s: (1.0 - k, g, B), holder=h)
    out.add('traces_validated_against_impl')
    out.add('states')
    out.add('transitions')
    case = {'B': B, 'g': g, 'D': D, 'sys': True}
    if tr.exc is not None or len(tr.calls) < 2:
        out.violation(f'run failed: {tr.exc!r}', case)
        return
    s = tr.calls[1][0]
    q = 0.5 * s @ B @ s + g @ s
    low = dual(B, g, D)
    mag = np.abs(B).max() * D * D + np.linalg.norm(g) * D
    if q > low + 1e-5 * abs(low) + 1e-12 * mag or (
        np.linalg.norm(s) > D * (1 + 3e-8)
    ):
        out.violation(f'full-space step {s}: value {q!r}, minimum {low!r}',
                      case)


def replay(c, out):
    f = lambda a: np.array([[float(z) for z in r] for r in a])  # noqa: E731
    B = f(c['B'])
    g = np.array([float(z) for z in c['g']])
    (syscase if c.get('sys') else judge)(B, g, float(c['D']), out)
