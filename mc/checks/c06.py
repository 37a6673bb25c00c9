"""C06: model decrease of every proposed step vs reference candidates."""

import itertools

import numpy as np

from .. import engine, loop
from ..core import COMBOS, INF, Quad, drive
from ..env import Prob, default_opt, hess, spread
from ..refstep import candidates

PID = 'C06'
BOUNDS = {
    'quick': 'n=1,2 (8 kinds of bounds per variable, all pairs), n=3 (8 '
             'boxes) x 9 gradients x 9 Hessians x 4 radii x 3 step-back '
             'fractions (every 11th of the product, offset by box), all solver/step-back combinations; '
             'second steps after acceptance; steps that reach several bounds '
             'at once (11 boxes, diagonal Hessians); '
             '5, 6, 7 and 9 variables with different distances to the bounds '
             '(4 boxes x 3 gradients x 4 Hessians x 2-4 radii); gradients '
             'down to 1e-9 for 3 to 14 variables (2 boxes x 3 gradients x 3 '
             'magnitudes x 5 Hessians x 2 radii)',
    'thorough': 'n=3 all triples of 5 kinds, all radii and fractions',
}
X = {
    'u': (-INF, INF, 0.5),
    'l': (0.0, INF, 0.4),
    'L': (0.0, INF, 1e-3),
    'U': (-INF, 1.0, 0.97),
    'b': (-1.0, 1.0, 0.25),
    'c': (0.0, 2.0, 1.9),
    'Z': (0.0, 1.0, 0.0),
    'w': (-1e3, 1e3, 999.0),
}
GS = {
    'a': [1.0, -2.0, 0.5], 'b': [-1.0, 0.5, -2.0], 'e': [-0.5, -0.25, 3.0],
    'f': [2.0, 1.0, -1.0], 'd': [1e-3, -30.0, 2.0], 'm': [-0.3, -0.7, 0.2],
    'c': [0.0, 1.0, 0.0], 'p': [0.6, 0.45, 0.9], 's': [3e-4, -2e-4, 1e-4],
}


# several variables reach their bounds at the same time
TIES = {'t': [-0.8] * 4, 'T': [0.8, 0.8, -0.8], 'w': [3.0] * 4}


# more variables, components of similar size
MANY = {'1': [-1.0, -1.1, -0.9, -1.3, -0.7, -0.8, -1.2, -1.5, -0.6],
        '2': [1.0, -1.1, 0.9, -1.3, 0.7, -0.8, 1.2, -1.5, 0.6],
        '3': [0.2, -3.0, 0.5, -0.1, 2.0, -0.9, 0.3, 1.0, -0.4]}


def G(kind, n):
    if '*' in kind:
        kind, c = kind.split('*')
        return float(c) * G(kind, n)
    v = GS.get(kind) or TIES.get(kind) or MANY[kind]
    return np.array(v[:n]) if n <= len(v) else spread(v, n)


def H(kind, n):
    if n > 3 and kind in 'xyvk':
        m = H(kind, 3)
        A = np.diag(np.resize(np.diag(m), n))
        for i in range(n - 1):
            A[i, i + 1] = A[i + 1, i] = m[0, 1] / (1 + i)
        return A
    if kind == 'D':
        return 0.3 * np.eye(n)
    if kind == 'x':  # strongly coupled
        A = np.array([[4.0, 1.9, -0.7], [1.9, 1.0, 0.2], [-0.7, 0.2, 3.0]])
        return A[:n, :n]
    if kind == 'y':  # indefinite, badly scaled
        A = np.array([[50.0, 3.0, 1.0], [3.0, -0.2, 0.4], [1.0, 0.4, 1e-2]])
        return A[:n, :n]
    if kind == 'v':
        A = np.array([[-1.0, 0.3, 0.2], [0.3, -3.0, 0.1], [0.2, 0.1, 2.0]])
        return A[:n, :n]
    if kind == 'k':  # diagonal with very different curvature
        return np.diag([1e3, 1e-2, 1.0][:n])
    return hess(kind, n)


HS = ['p', 'i', 'n', '0', 'b', 'x', 'y', 'v', 'k']


def tasks(tier):
    quick = tier == 'quick'
    boxes = list(X) + [''.join(p) for p in itertools.product(X, repeat=2)]
    tri = ['ubZ', 'cLU', 'bcl', 'uuu', 'Zbb', 'LUc', 'bbb', 'lcw']
    if not quick:
        tri += [''.join(p) for p in itertools.product('uLUbc', repeat=3)]
    out = []
    for i, ks in enumerate(boxes + tri):
        for so, st in COMBOS:
            if st == 'refine' and quick and i % 16:
                continue
            out.append((ks, so, st, i, quick))
    for so, st in COMBOS:
        if st != 'refine':
            out.append(('ties', so, st))
            for n in (5, 6, 7, 9):
                out.append(('many', so, st, n, quick))
            for n in (3, 6, 9, 14):
                out.append(('small', so, st, n))
    return out


def evaluate(p, gv, Hv, delta, tr, k, out, case):
    """checks evaluation k+1 of a trace, proposed at calls[k]'s state"""
    st = tr.steps[k]
    q = Quad(st.pre.x, st.pre.g, st.pre.H, p.lb, p.ub, p.opt('theta_max'))
    ss, err = q.scaled(st.xt)
    val = q.q(ss)
    tol = q.q_err(ss, err)
    out.add('transitions')
    if np.any(q.sg != 0) and np.max(np.abs(q.sg)) > 1e-12 and not (
        val < tol
    ):
        out.violation(f'no predicted decrease: q={val:.6g} '
                      f'[{p.solver}/{p.strat}]', case)
        return
    refs, base = candidates(q, st.pre.delta, p.solver, p.strat)
    if not refs:
        out.add('ill_posed')
    for name, ref in refs:
        out.add('candidates_compared')
        # slack: relative to the decrease, rounding of the data
        slack = 1e-5 * abs(ref) + tol + 1e-12 * (
            np.abs(ss) @ np.abs(q.M) @ np.abs(ss) + np.abs(q.sg) @ np.abs(ss)
        )
        if val > ref + slack:
            out.violation(
                f'predicted decrease {-val:.9g} is worse than {name} '
                f'{-ref:.9g} [{p.solver}/{p.strat}]', case)
            return


def points(ks, so, st):
    n = len(ks)
    gs = list(GS) if st != 'refine' else ['a', 'e', 'p']
    hs = HS if st != 'refine' else ['p', 'v', 'x']
    if n == 1:
        gs = ['a', 'b', 'd', 's']
    return list(itertools.product(gs, hs, [1e-2, 0.3, 1.0, 10.0],
                                  [0.95, 0.6, 0.999]))


def ties(so, st, out):
    for ks in ('bb', 'll', 'UU', 'cc', 'bbb', 'bbc', 'Lbb', 'UUu', 'ucc',
               'bbbb', 'llbb'):
        lb, ub, x0 = zip(*[X[k] for k in ks])
        for gk, hk, d0, th in itertools.product(
            TIES, ['D', '0', 'n'], [0.1, 0.5, 1.0, 3.0, 30.0], [0.95, 0.6]
        ):
            if len(ks) > 3 and gk == 'T':
                continue
            case(lb, ub, x0, so, st, gk, hk, d0, th, out)


def many(so, st, n, quick, out):
    i = np.arange(n)
    w = 0.1 * (i + 1) * 1.13**(i % 4)
    sides = {
        'up': (-INF + 0 * w, w), 'low': (-w[::-1], INF + 0 * w),
        'both': (-w - 0.05 * i, 0.9 * w[::-1] + 0.01),
        'some': (np.where(i % 2, -INF, -w), np.where(i % 3, w, INF)),
    }
    for b, gk, hk, d0 in itertools.product(
        sides, MANY, ['D', '0', 'p', 'x'] if quick else ['D', '0'] + HS,
        [0.3, 1.0, 3.0, 50.0] if n != 9 or not quick else [1.0, 50.0],
    ):
        lb, ub = (np.array(a, float) for a in sides[b])
        case(lb, ub, np.zeros(n), so, st, gk, hk, d0, 0.95, out)


def small(so, st, n, out):
    """small gradients: tight tolerances of the inner iterations"""
    i = np.arange(n)
    free = (np.full(n, -INF), np.full(n, INF))
    wide = (-9.0 - i, 11.0 + 1.5 * i)
    for (lb, ub), gk, c, hk, d0 in itertools.product(
        (free, wide), MANY, ('1e-3', '1e-6', '1e-9'), 'pxykr', [1.0, 50.0]
    ):
        case(np.array(lb, float), np.array(ub, float), np.zeros(n), so, st,
             f'{gk}*{c}', hk, d0, 0.95, out)


def lattice(ks, so, st, i, quick, out):
    lb, ub, x0 = zip(*[X[k] for k in ks])
    n = len(ks)
    combos = points(ks, so, st)
    if quick:
        combos = combos[(i % 11)::11] if n > 1 else combos[::2]
    if st == 'refine':
        combos = combos[::3]
    for gk, hk, d0, th in combos:
        case(lb, ub, x0, so, st, gk, hk, d0, th, out)


def trace(p, gk, hk, depth):
    """a run in which every step is accepted with other derivatives"""
    n = p.n

    def ans(k, x, snap):
        if k == 0:
            return 0.0, G(gk, n), H(hk, n)
        alt = list(GS)
        if gk in TIES or gk[0] in MANY:
            return snap.f - 1e3, G(gk, n), H(hk, n)
        g2 = alt[(alt.index(gk) + k) % len(alt)]
        h2 = HS[(HS.index(hk) + k) % len(HS)]
        return snap.f - 1e3, G(g2, n), H(h2, n)

    o, h = default_opt(p, depth)
    return drive(o, p.x0.copy(), ans, holder=h)


def case(lb, ub, x0, so, st, gk, hk, d0, th, out, depth=2):
    p = Prob(lb, ub, x0, so, st, init=(0.0, gk, hk), delta_init=d0,
             theta_max=th, **loop.NOCONV)
    if st == 'refine':
        depth = 1
    tr = trace(p, gk, hk, depth)
    out.add('traces_validated_against_impl')
    out.add('states', len(tr.calls))
    c = dict(lb=lb, ub=ub, x0=x0, so=so, st=st, gk=gk, hk=hk, d0=d0, th=th)
    if tr.exc is not None:
        out.violation(f'{tr.exc!r} [{so}/{st}]', c)
        return
    for k in range(len(tr.steps)):
        evaluate(p, None, None, d0, tr, k, out, c)
    if not out.samples:
        out.sample({**c, 'points': [z[0] for z in tr.calls]})


def work(task):
    out = engine.Out()
    if task[0] == 'ties':
        ties(*task[1:], out)
        return out
    if task[0] == 'many':
        many(*task[1:], out)
        return out
    if task[0] == 'small':
        small(*task[1:], out)
        return out
    lattice(*task, out)
    return out


def replay(c, out):
    f = lambda a: [float(z) for z in a]  # noqa: E731
    case(f(c['lb']), f(c['ub']), f(c['x0']), c['so'], c['st'], c['gk'],
         c['hk'], float(c['d0']), float(c['th']), out)


