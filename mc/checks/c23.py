"""C23: complete runs on non-convex problems end at local minima."""

import itertools

import numpy as np

from .. import engine
from ..core import COMBOS_FAST, INF, ExitFlag, drive, make
from ..env import in_bounds

PID = 'C23'
BOUNDS = {
    'quick': 'indefinite, singular and linear quadratics over boxes (n=1: 4 x '
             '6, n=2: 9 Hessians x 16 gradients, n=3: 6 x 6; 3-4 boxes, 4-5 '
             'starts; n=4..8: 5 spectra x 3 gradients x 3 boxes x 3 starts), '
             'saddles of 2..8 variables with starts on and near the set that '
             'leads to the saddle and 9 families of non-quadratic functions (Rosenbrock, '
             'Himmelblau, double wells, trigonometric, Beale, monkey saddle, '
             'logarithmic barrier, quartic) over 4 boxes x 9 starts; exact '
             'Hessians; all fast solver/strategy pairs alternating over '
             'problems; default and gradient-only tolerances',
    'thorough': 'all pairs on all problems, refinement on every 10th',
}
ASSUMPTIONS = ['first order: distance to the bound in direction of descent '
               '(at most 1) times gradient component is at most 1e-4 '
               '(relative to 1 + |f| and the gradient at the start); second '
               'order (2D and full solver): smallest eigenvalue of the '
               'Hessian of the variables that are off their bounds is above '
               '-1e-3 relative to its norm']

H1 = [-1.0, -0.05, 0.0, 2.0]
G1 = [-2.0, -0.3, -1e-2, 0.05, 0.4, 3.0]
H2 = [[[1, 2], [2, 1]], [[-1, 0], [0, 2]], [[-1, .5], [.5, -2]],
      [[2, 1], [1, -.5]], [[0, 1], [1, 0]], [[-1, .9], [.9, -1]],
      [[1, 1], [1, 1]], [[0, 0], [0, 0]], [[-100, 5], [5, .1]]]
G2 = list(itertools.product((-1, -.3, .2, .7), repeat=2))
H3 = [[[1, 2, 0], [2, 1, 2], [0, 2, 1]], [[-1, .3, .2], [.3, 1, .5],
                                          [.2, .5, -2]],
      [[0, 0, 0], [0, 1, 0], [0, 0, -1]], [[1, 1, 1], [1, 1, 1], [1, 1, 1]],
      [[-1, .1, .2], [.1, -2, .3], [.2, .3, -3]],
      [[0, 1, 1], [1, 0, 1], [1, 1, 0]]]
G3 = [(-1, .5, .2), (.3, .7, -.4), (-.2, -.6, -1), (1, .1, .1),
      (.05, -.4, .8), (-.7, .2, -.01)]
B1 = [([-1], [1]), ([0], [3]), ([-10], [.5])]
B2 = [([-1, -1], [1, 1]), ([0, -2], [1, 3]), ([-10, 0], [10, .5])]
B3 = [([-1] * 3, [1] * 3), ([0, -2, -10], [1, 3, .5])]
S1 = [.5, .05, .31, .97]
S2 = [(.5, .4), (.05, .93), (.3, .6), (.99, .02)]
S3 = [(.5, .4, .3), (.05, .93, .2), (.99, .02, .5)]


def quad(H, g):
    H, g = np.array(H, float), np.array(g, float)

    def f(x):
        return 0.5 * x @ H @ x + g @ x, H @ x + g, H.copy()

    return f


def rosen(x, c=100.0):
    a, b = x
    return (c * (b - a * a) ** 2 + (1 - a) ** 2,
            np.array([-4 * c * a * (b - a * a) - 2 * (1 - a),
                      2 * c * (b - a * a)]),
            np.array([[12 * c * a * a - 4 * c * b + 2, -4 * c * a],
                      [-4 * c * a, 2 * c]]))


def himmel(x):
    a, b = x
    p, q = a * a + b - 11, a + b * b - 7
    return (p * p + q * q,
            np.array([4 * a * p + 2 * q, 2 * p + 4 * b * q]),
            np.array([[4 * p + 8 * a * a + 2, 4 * a + 4 * b],
                      [4 * a + 4 * b, 2 + 4 * q + 8 * b * b]]))


def wells(x):
    a, b = x
    return ((a * a - 1) ** 2 + (b * b - 1) ** 2 + .3 * a * b + .1 * a,
            np.array([4 * a * (a * a - 1) + .3 * b + .1,
                      4 * b * (b * b - 1) + .3 * a]),
            np.array([[12 * a * a - 4, .3], [.3, 12 * b * b - 4]]))


def trig(x):
    a, b = x
    return (np.sin(a) * np.cos(b) + .1 * a,
            np.array([np.cos(a) * np.cos(b) + .1, -np.sin(a) * np.sin(b)]),
            np.array([[-np.sin(a) * np.cos(b), -np.cos(a) * np.sin(b)],
                      [-np.cos(a) * np.sin(b), -np.sin(a) * np.cos(b)]]))


def beale(x):
    a, b = x
    r = [1.5 - a + a * b, 2.25 - a + a * b ** 2, 2.625 - a + a * b ** 3]
    J = np.array([[-1 + b, a], [-1 + b ** 2, 2 * a * b],
                  [-1 + b ** 3, 3 * a * b ** 2]])
    H = 2 * J.T @ J
    H2_ = [[[0, 1], [1, 0]], [[0, 2 * b], [2 * b, 2 * a]],
           [[0, 3 * b ** 2], [3 * b ** 2, 6 * a * b]]]
    for ri, h in zip(r, H2_):
        H = H + 2 * ri * np.array(h)
    return sum(z * z for z in r), 2 * J.T @ np.array(r), H


def monkey(x):
    a, b = x
    return (a ** 3 - 3 * a * b * b,
            np.array([3 * a * a - 3 * b * b, -6 * a * b]),
            np.array([[6 * a, -6 * b], [-6 * b, -6 * a]]))


def barrier(x):
    """only defined above -3"""
    z = x + 3.0
    if np.any(z <= 0):
        return np.nan, np.full(2, np.nan), np.full((2, 2), np.nan)
    d = x[0] - x[1]
    s = np.array([1.0, -1.0])
    return (float(np.sum(x - 2 * np.log(z)) - .5 * d * d + .02 * d ** 4),
            1 - 2 / z + s * (-d + .08 * d ** 3),
            np.diag(2 / z ** 2) + np.outer(s, s) * (-1 + .24 * d * d))


def quartic(x):
    a, b = x
    return (a ** 4 + (b - a) ** 4,
            np.array([4 * a ** 3 - 4 * (b - a) ** 3, 4 * (b - a) ** 3]),
            np.array([[12 * a * a + 12 * (b - a) ** 2, -12 * (b - a) ** 2],
                      [-12 * (b - a) ** 2, 12 * (b - a) ** 2]]))


FUNS = {'rosen': rosen, 'rosen10': lambda x: rosen(x, 10.0),
        'himmel': himmel, 'wells': wells, 'trig': trig, 'beale': beale,
        'monkey': monkey, 'barrier': barrier, 'quartic': quartic}
BF = [([-2, -2], [2, 2]), ([-3, -3], [3, 0.5]), ([0, -INF], [4, 5]),
      ([-INF, -INF], [INF, INF])]
SF = list(itertools.product((.06, .47, .91), repeat=2))
TOLS = {'default': {}, 'grad': {'fatol': 0.0, 'frtol': 0.0, 'gatol': 1e-7}}


# more variables
NN = (4, 5, 6, 8)
EV = [lambda n: np.linspace(-1, 3, n), lambda n: np.linspace(-2, -.1, n),
      lambda n: np.r_[-.3, np.ones(n - 1)], lambda n: np.r_[0, 0, -1, 2 + (
          np.arange(n - 3))], lambda n: np.linspace(.1, 50, n)]
GN = [lambda n: np.sin(1.0 + np.arange(n)), lambda n: .05 * np.cos(
    2.0 * np.arange(n)), lambda n: np.resize([3.0, -.4, .2], n)]
BN = [(-1.0, 1.0), (-10.0, .5), (0.0, 3.0)]
SN = [.31, (.5, .4, .3, .55), (.05, .93, .2, .7, .99)]
# directions of negative curvature
QN = [lambda n: np.resize([1.0, -1.0], n), lambda n: np.resize(
    [1.0, 2.0, -1.0], n), lambda n: np.eye(n)[n - 1], lambda n: np.r_[
        np.zeros(n - 2), 1.0, -1.0]]
# (distance from the saddle, distance from the set that leads to it)
OFFN = [(1.0, 0.0), (1.0, 1e-9), (1.0, 1e-5), (1.0, 0.4), (1e-2, 0.0),
        (1e-4, 0.0), (1e-5, 0.0), (1e-4, 1e-9)]
BS = [(-5.0, 5.0), (-INF, INF), (-.6, 4.0), (-INF, .7)]


def orthogonal(n):
    v = np.sqrt(1.0 + np.arange(n))
    return np.eye(n) - 2 * np.outer(v, v) / (v @ v)


def saddle(q, c, A):
    """x'Ax/2 + t^4 - c t^2 with t = q'x"""
    def f(x):
        t = q @ x
        return (0.5 * x @ A @ x + t ** 4 - c * t * t,
                A @ x + (4 * t ** 3 - 2 * c * t) * q,
                A + (12 * t * t - 2 * c) * np.outer(q, q))

    return f


def bigproblem(key):
    if key[0] == 'Q':
        _, n, ie, ig, ib, s = key
        W = orthogonal(n)
        f = quad(W * EV[ie](n) @ W.T, GN[ig](n))
        lb, ub = (np.full(n, b) for b in BN[ib])
        return f, lb, ub, lb + (ub - lb) * np.resize(SN[s], n)
    _, n, iq, c, ib, io = key
    q = QN[iq](n)
    q = q / np.linalg.norm(q)
    A = np.diag(3 + .5 * np.arange(n))
    lb, ub = (np.full(n, b) for b in BS[ib])
    # start close to the set from which descent leads to the saddle
    sc, off = OFFN[io]
    x0 = .2 * np.cos(np.arange(n)) + .1
    x0 = sc * (x0 - (q @ x0) * q) + off * q
    return saddle(q, c, A), lb, ub, x0


def problem(key):
    kind = key[0]
    if kind in 'QS':
        return bigproblem(key)
    if kind == 'q':
        _, n, ih, ig, ib, s = key
        H, G, B, S = {1: (H1, G1, B1, S1), 2: (H2, G2, B2, S2),
                      3: (H3, G3, B3, S3)}[n]
        f = quad(np.array(H[ih]).reshape(n, n), np.array(G[ig]).reshape(n))
        lb, ub = B[ib]
        st = np.broadcast_to(S[s], (n,))
    else:
        _, name, ib, s = key
        f = FUNS[name]
        lb, ub = BF[ib]
        st = np.array(SF[s])
    lb, ub = np.array(lb, float), np.array(ub, float)
    L = np.where(np.isfinite(lb), lb, -3.0)
    U = np.where(np.isfinite(ub), ub, 3.0)
    return f, lb, ub, L + (U - L) * st


def measure(f, lb, ub, x):
    fv, g, H = f(x)
    gap = np.where(g < 0, ub - x, x - lb)
    first = np.max(np.minimum(gap, 1.0) * np.abs(g))
    free = np.flatnonzero(np.minimum(ub - x, x - lb) > 1e-3)
    if len(free) == 0:
        return first, 0.0, fv
    Hf = H[np.ix_(free, free)]
    ev = np.linalg.eigvalsh(Hf)
    return first, ev[0] / (1 + np.max(np.abs(ev))), fv


def solve(key, so, st, tol, out, stat=None):
    f, lb, ub, x0 = problem(key)
    case = {'key': key, 'solver': so, 'strat': st, 'tol': tol}
    o, h = make(lb, ub, so, st, **TOLS[tol])
    tr = drive(o, x0, lambda k, x, snap: f(x), holder=h, limit=60)
    out.add('states')
    out.add('transitions', max(0, len(tr.calls) - 1))
    out.add('traces_validated_against_impl')
    tag = f'{key} {so}/{st} {tol} from {x0.tolist()}:'
    if tr.hang or tr.exc is not None:
        out.violation(f'{tag} {tr.exc!r}', case)
        return
    flag = tr.final.flag
    out.add('exits_' + flag.name)
    x = np.asarray(tr.ret[1])
    if flag in (ExitFlag.MAXITER, ExitFlag.MAXTIME):
        out.violation(f'{tag} not solved within the default budget at {x}',
                      case)
        return
    if np.any(x < lb) or np.any(x > ub):
        out.violation(f'{tag} infeasible result {x}', case)
        return
    first, curv, fv = measure(f, lb, ub, x)
    g0 = np.max(np.abs(f(x0)[1]))
    if stat is not None:
        stat.append((first / (1 + abs(fv) + 1e-2 * g0), curv, flag.name,
                     len(tr.calls), case))
    if first > 1e-4 * (1 + abs(fv) + 1e-2 * g0):
        out.violation(f'{tag} ended with {flag!r} at {x}, which is not '
                      f'stationary (residual {first:.3g})', case)
    elif so != 'scg' and curv < -1e-3:
        out.violation(f'{tag} ended with {flag!r} at {x}, which is not a '
                      f'local minimum (curvature {curv:.3g})', case)
    if fv > f(x0)[0]:
        out.violation(f'{tag} final value is above the initial one', case)
    if not out.samples:
        out.sample({**case, 'x': x, 'flag': flag.name})


def keys():
    for n, (H, G, B, S) in {1: (H1, G1, B1, S1), 2: (H2, G2, B2, S2),
                            3: (H3, G3, B3, S3)}.items():
        for ih, ig, ib, s in itertools.product(
            range(len(H)), range(len(G)), range(len(B)), range(len(S))
        ):
            yield ('q', n, ih, ig, ib, s)
    for name, ib, s in itertools.product(FUNS, range(len(BF)),
                                         range(len(SF))):
        if name in ('trig', 'monkey', 'barrier', 'beale') and ib >= 2:
            continue  # unbounded level sets
        yield ('f', name, ib, s)
    for n in NN:
        for k in itertools.product(range(len(EV)), range(len(GN)),
                                   range(len(BN)), range(len(SN))):
            yield ('Q', n, *k)
    for n in (2, 3, *NN):
        for k in itertools.product(range(len(QN)), (4.5, 9.0),
                                   range(len(BS)), range(len(OFFN))):
            yield ('S', n, *k)


def jobs(tier):
    quick = tier == 'quick'
    for k, key in enumerate(keys()):
        for j, (so, st) in enumerate(COMBOS_FAST):
            for t, tol in enumerate(TOLS):
                if quick and key[0] == 'q' and (j + k) % 4 != 2 * t:
                    continue
                if quick and key[0] in 'QS' and (j + k) % 6 != 3 * t:
                    continue
                if quick and key[0] == 'f' and (j + k) % 2 != t:
                    continue
                yield key, so, st, tol
        if not quick and k % 10 == 0:
            for so in ('2D', 'full'):
                yield key, so, 'refine', 'default'


def tasks(tier):
    js = list(jobs(tier))
    return [js[i:i + 60] for i in range(0, len(js), 60)]


def work(task):
    out = engine.Out()
    for j in task:
        solve(*j, out)
        if len(out.viol) > 2:
            break
    return out


def replay(c, out):
    solve(tuple(c['key']), c['solver'], c['strat'], c['tol'], out)
