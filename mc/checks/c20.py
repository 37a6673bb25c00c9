"""C20: residual mode is the least-squares objective it stands for."""

import itertools

import numpy as np

from .. import engine
from ..core import INF, drive, make
from ..env import approx, close_x
from ..spaces import box
from ..tracecmp import diff, eq

PID = 'C20'
BOUNDS = {
    'quick': 'residual lengths 1,2,3,5,9 (and 17 to 1100 with shorter '
             'sequences), all sequences of 3 answers over 9 '
             '(residual, derivative, scale) actions incl. undefined, zero '
             'and increasing residuals, 6 boxes (n=1,2,3), 3 solver/strategy '
             'pairs; all combinations on sequences of 2; schemes SSM, TSSM, '
             'GNSBFGS, FX; integer valued residuals, 11 numeric types; complete linear and '
             'nonlinear least-squares runs for all combinations',
    'thorough': 'all sequences of 4 answers, 12 boxes',
}
ASSUMPTIONS = [
    'residuals and derivatives are dyadic numbers, so that value, gradient '
    'and Gauss-Newton matrix have no rounding errors and the comparison with '
    'the direct objective is exact',
]

# dyadic alphabets: every sum of products below is exact in floating point
_R = [
    [1.0, -0.5, 0.25, 2.0, 0.75, -1.0, 0.5, 0.25, -0.125],
    [0.5, 0.5, -1.0, 0.25, -0.5, 1.5, -0.25, 0.0, 1.0],
    [0.0, 0.25, 0.0, -0.125, 0.5, 0.0, 0.0, 1.0, 0.0],
    [2.0, 1.0, -1.0, 1.5, 0.0, 0.5, -2.0, 1.0, 0.25],
]
_J = [
    [[1, .5, 0], [-.5, 1, .25], [.25, .25, 1], [0, -1, .5], [.5, 0, 1],
     [1, 1, 1], [-1, .5, .25], [0, 0, 2], [.25, -.75, 0]],
    [[.25, -1, .5], [1, .125, -.5], [.5, .5, .5], [1, 0, -1], [-2, .5, 0],
     [0, .25, 0], [1, 1, -.5], [.5, -.5, .25], [0, 1, 1]],
    [[-1, 2, 1], [2, -1, .5], [0, .25, -2], [.75, .75, .125], [1, 0, 0],
     [0, 1, 0], [0, 0, 1], [.5, 2, -1], [-.25, 1, 1]],
]
INIT = (3, 0, 2.0)
ACTS = [(0, 1, 1.0), (1, 0, 1.0), (2, 2, 1.0), (3, 1, 1.0), (0, 2, 0.125),
        (1, 1, 2.0 ** -6), (3, 0, 16.0), (2, 0, 0.0), ('nan', 1, 1.0)]
BOXES = ['u', 'B', 'uu', 'bl', 'Zb', 'bub']
BOXES_T = BOXES + ['l', 'Z', 'lu', 'BB', 'LU', 'Zlb']
MS = [1, 2, 3, 5, 9]
MANY = [17, 33, 50, 64, 100, 257, 1000, 1100]
SEL = [('2D', 'reflect'), ('full', 'truncate'), ('scg', 'mixed')]
SCHEMES = ['SSM', 'SSM:phi=1.0', 'TSSM', 'GNSBFGS', 'FX']
GN = 'FX:hybrid_tol=-1e300'  # always selects the Gauss-Newton matrix


def rj(act, m, n):
    i, j, sc = act
    # more residuals than in the alphabet: repeated, with other factors
    rows = [k % 9 for k in range(m)]
    w = np.array([(1.0, -0.5, 2.0, 0.25)[k // 9 % 4] for k in range(m)])
    if i in ('nan', 'inf'):
        r = np.array([_R[0][k] for k in rows]) * w
        r[m // 2] = np.nan if i == 'nan' else INF
    else:
        r = np.array([_R[i][k] for k in rows]) * w * sc
    return r, np.array([_J[j][k][:n] for k in rows], dtype=float)


def fgH(r, J):
    m, n = J.shape
    if m > 9:
        return (float(np.sum(0.5 * r * r)), np.sum(r[:, None] * J, axis=0),
                np.sum(J[:, :, None] * J[:, None, :], axis=0))
    f = 0.0
    g = np.zeros(n)
    H = np.zeros((n, n))
    for k in range(m):
        f = f + 0.5 * r[k] * r[k]
        for a in range(n):
            g[a] += r[k] * J[k, a]
            for b in range(n):
                H[a, b] += J[k, a] * J[k, b]
    return f, g, H


def one(ks, m, so, st, acts, mode, ints=False):
    """mode: 'direct', None (no scheme) or the name of a scheme"""
    lb, ub, x0 = box(ks)
    n = len(x0)
    seq = (INIT,) + tuple(acts)
    o, h = make(lb, ub, so, st, resfun=mode != 'direct',
                hess_update=None if mode == 'direct' else approx(mode),
                maxiter=len(acts), fatol=0.0, frtol=0.0, gatol=0.0)

    def env(k, x, snap):
        r, J = rj(seq[min(k, len(seq) - 1)], m, n)
        if mode == 'direct':
            return fgH(r, J)
        if ints:
            return r.astype(int), J.astype(int)
        return r, J

    return drive(o, np.array(x0), env, holder=h,
                 hess0='hess' if mode == GN else None)


def case_of(*a):
    return {'seq': list(a)}


def compare(ks, m, so, st, acts, mode, out):
    d = one(ks, m, so, st, acts, 'direct')
    r = one(ks, m, so, st, acts, mode)
    out.add('transitions', len(r.calls) - 1)
    out.add('traces_validated_against_impl', 2)
    case = case_of(ks, m, so, st, acts, mode)
    x = diff(d, r)
    if x:
        out.violation(f'residual mode ({mode}, m={m}) differs from the direct '
                      f'objective: {x} [{so}/{st} {acts}]', case)
        return
    if len(r.calls) > 1 and not out.samples:
        out.sample({**case, 'f': r.ret and r.ret[0],
                    'points': [c[0] for c in r.calls]})
    consistent(r, m, len(r.calls[0][0]), out, case, hess=True)


def consistent(tr, m, n, out, case, hess):
    """every (x, f, g[, H]) reported belongs to one evaluated residual"""
    done = []
    for k in range(len(tr.calls) + 1):
        s = tr.snaps[k] if k < len(tr.calls) else tr.final
        if done:
            ok = any(
                close_x(s.x, x) and s.f == f and eq(s.g, g)
                and (not hess or eq(s.H, H)) for x, (f, g, H) in done)
            if not ok:
                out.violation(
                    f'state after {k} evaluations ({s.x}, {s.f}, {s.g}) is '
                    f'not r.r/2, J^T r, J^T J of an evaluated point', case)
                return
            fb = [f for _, (f, g, H) in done if np.isfinite(f)]
            if fb and not any(
                    eq(s.xm, x) and s.fm == f == min(fb) and eq(s.gm, g)
                    for x, (f, g, H) in done):
                out.violation(
                    f'best point after {k} evaluations ({s.xm}, {s.fm}, '
                    f'{s.gm}) is not that of the residuals', case)
                return
        if k < len(tr.calls):
            x, ans = tr.calls[k]
            done.append((x, fgH(*ans)))
    if tr.ret is not None:
        f, x, g, H = tr.ret
        s = tr.final
        if not (s.f == f and eq(s.x, x) and eq(s.g, g) and eq(s.H, H)):
            out.violation('returned values are not those of the final state',
                          case)


def scheme(ks, m, so, st, acts, mode, out):
    tr = one(ks, m, so, st, acts, mode)
    out.add('transitions', len(tr.calls) - 1)
    out.add('traces_validated_against_impl')
    case = case_of(ks, m, so, st, acts, mode)
    if tr.exc is not None:
        # no value is undefined here
        out.violation(f'{mode} m={m}: unexpected {tr.exc!r}', case)
        return
    consistent(tr, m, len(tr.calls[0][0]), out, case, hess=False)


IACTS = [(3, 2, 2.0), (1, 2, 2.0), (0, 0, 4.0)]
IJ = [[[1, 2, 0], [-1, 1, 2], [2, 0, 1], [0, -1, 3], [1, 1, 1], [1, 0, 2],
       [0, 3, 1], [2, 2, 1], [1, 1, 0]]]


# --------------------------------------------------------------- whole runs
def systems():
    """name -> (residual function, derivative, x0, unconstrained)"""
    out = {}
    for m in (1, 2, 3, 6):
        for n in (1, 2, 3):
            A = np.array([[((3 * i + 5 * j + i * j) % 7 - 3) / 2.0
                           for j in range(n)] for i in range(m)])
            b = np.array([(i % 3) - 0.5 for i in range(m)])
            out[f'lin{m}x{n}'] = (
                lambda x, A=A, b=b: A @ x - b, lambda x, A=A: A, n)
    out['rosen'] = (
        lambda x: np.array([10 * (x[1] - x[0] ** 2), 1 - x[0]]),
        lambda x: np.array([[-20 * x[0], 10.0], [-1.0, 0.0]]), 2)
    t = np.array([0.5, 1.0, 1.5, 2.0, 3.0])
    y = 2.0 * np.exp(-0.7 * t) + np.array([.01, -.02, .01, 0.0, .015])
    out['exp'] = (
        lambda x: x[0] * np.exp(-x[1] * t) - y,
        lambda x: np.array([np.exp(-x[1] * t),
                            -t * x[0] * np.exp(-x[1] * t)]).T, 2)
    return out


WB = {1: ['u', 'b', 'Z'], 2: ['uu', 'bl', 'BB'], 3: ['uuu', 'blb', 'ZuB']}


def whole(name, ks, so, st, mode, out):
    r, J, n = systems()[name]
    lb, ub, x0 = box(ks)
    res = {}
    for md in ('direct', mode):
        o, h = make(lb, ub, so, st, resfun=md != 'direct',
                    hess_update=None if md == 'direct' else approx(md))

        def env(k, x, snap):
            if md == 'direct':
                rr, JJ = r(x), J(x)
                return 0.5 * rr @ rr, JJ.T @ rr, JJ.T @ JJ
            return r(x), J(x)

        res[md] = drive(o, np.array(x0), env, holder=h,
                        hess0='hess' if md == GN else None)
        out.add('transitions', len(res[md].calls))
        out.add('traces_validated_against_impl')
    a, b = res['direct'], res[mode]
    case = {'whole': [name, ks, so, st, mode]}
    if (a.exc is None) != (b.exc is None):
        out.violation(f'{name}: {a.exc!r} vs {b.exc!r} in residual mode',
                      case)
        return
    if a.exc is not None:
        return
    # the same computation up to rounding: first iterations agree closely,
    # results agree up to the tolerance of the convergence criteria
    for k in range(min(3, len(a.calls), len(b.calls))):
        xa, xb = a.calls[k][0], b.calls[k][0]
        if np.max(np.abs(xa - xb)) > 1e-6 * (1 + np.max(np.abs(xa))):
            out.violation(f'{name}/{ks}/{so}/{st}: evaluation {k} at {xa} vs '
                          f'{xb} in residual mode', case)
            return
    if abs(a.ret[0] - b.ret[0]) > 1e-5 * (1 + abs(a.ret[0])):
        out.violation(f'{name}/{ks}/{so}/{st}: result {a.ret[0]} vs '
                      f'{b.ret[0]} in residual mode ({mode})', case)


def tasks(tier):
    t = []
    thorough = tier == 'thorough'
    for ks in (BOXES_T if thorough else BOXES):
        for m in MS:
            for so, st in SEL:
                for first in ACTS:
                    t.append(('cmp', ks, m, so, st, first, 3 if thorough
                              else 2, None))
    for ks in ('uu', 'B', 'bub'):
        for m in MANY:
            for so, st in SEL:
                for first in ACTS:
                    t.append(('cmp', ks, m, so, st, first, 1, None))
            for sc in SCHEMES:
                t.append(('sch', ks, m, sc))
    from ..core import COMBOS

    for so, st in COMBOS:
        for ks in ('bl', 'Zb'):
            for m in (1, 3):
                for first in ACTS[::4 if st == 'refine' else 1]:
                    t.append(('cmp', ks, m, so, st, first,
                              2 if thorough else 1, None))
                if st != 'refine':
                    t.append(('cmp', ks, m, so, st, ACTS[0], 2, GN))
    for sc in SCHEMES:
        for ks in BOXES:
            for m in MS:
                t.append(('sch', ks, m, sc))
    for ks in BOXES:
        t.append(('int', ks))
    for ks in ('bl', 'uu', 'u') if not thorough else BOXES:
        for sc in [None] + SCHEMES:
            t.append(('typed', ks, sc))
    for name in systems():
        for so, st in COMBOS:
            t.append(('whole', name, so, st))
    return t


def work(task):
    out = engine.Out()
    if task[0] == 'cmp':
        _, ks, m, so, st, first, k, mode = task
        for rest in itertools.product(ACTS, repeat=k):
            compare(ks, m, so, st, (first,) + rest, mode, out)
            out.add('states')
            if len(out.viol) > 2:
                break
    elif task[0] == 'sch':
        _, ks, m, sc = task
        for acts in itertools.product(ACTS[:7], repeat=2):
            for so, st in SEL[:2]:
                scheme(ks, m, so, st, acts, sc, out)
                out.add('states')
            if len(out.viol) > 2:
                break
    elif task[0] == 'typed':
        for m, dt, which, acts in itertools.product(
            (1, 2, 4), DTYPES, ('r', 'J', 'rJ'),
            itertools.product(itertools.product(range(3), range(2)),
                              repeat=2)
        ):
            acts = ((0, 0),) + acts
            for so, st in SEL[:2]:
                if (len(which) == 1) == (so == '2D'):
                    continue
                typed(task[1], m, so, st, task[2], dt, which, acts, out)
                out.add('states')
            if len(out.viol) > 2:
                break
    elif task[0] == 'int':
        for m in MS:
            for so, st in SEL:
                for acts in itertools.product(IACTS, repeat=2):
                    integer2(task[1], m, so, st, acts, out)
                    out.add('states')
    else:
        _, name, so, st = task
        n = systems()[name][2]
        for ks in WB[n]:
            whole(name, ks, so, st, None, out)
            out.add('states')
            if st != 'refine':
                whole(name, ks, so, st, GN, out)
                out.add('states')
    return out


def integer2(ks, m, so, st, acts, out):
    """integer valued residuals and derivatives, integer and float arrays"""
    lb, ub, x0 = box(ks)
    n = len(x0)
    tr = []
    for dt in (float, int):
        o, h = make(lb, ub, so, st, resfun=True, maxiter=len(acts),
                    fatol=0.0, frtol=0.0, gatol=0.0)

        def env(k, x, snap, dt=dt):
            i, j, sc = (((3, 0, 4.0),) + tuple(acts))[k]
            r = (np.array(_R[i][:m]) * 8 * sc / 2 ** k).round()
            J = np.array([q[:n] for q in IJ[0][:m]]) * (j + 1)
            return r.astype(dt), J.astype(dt)

        tr.append(drive(o, np.array(x0), env, holder=h))
        out.add('traces_validated_against_impl')
    out.add('transitions', len(tr[1].calls) - 1)
    x = diff(*tr)
    if x:
        out.violation(f'integer valued residuals (m={m}) differ: {x}',
                      {'int': [ks, m, so, st, acts]})


DTYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64',
          'uint64', 'float16', 'float32', 'bool']
RD = [[100, -90, 120, 80], [90, 120, -60, 1], [30, 5, 100, -2]]
JD = [[[100, 2, 3], [-3, 90, 1], [5, 6, 120], [0, 1, 0]],
      [[10, -120, 3], [3, 9, 100], [100, 60, 2], [70, 1, 9]]]


def typed(ks, m, so, st, sc, dt, which, acts, out):
    """residuals and derivatives of other types than float"""
    lb, ub, x0 = box(ks)
    n = len(x0)
    tr = []
    for t in (None, dt):
        o, h = make(lb, ub, so, st, resfun=True, maxiter=len(acts) - 1,
                    hess_update=approx(sc), fatol=0.0, frtol=0.0, gatol=0.0)

        def env(k, x, snap, t=t):
            i, j = acts[k]
            r, J = np.array(RD[i][:m], float), np.array(JD[j][:m], float)
            if dt == 'bool':
                r, J = (r > 0) * 1.0, (J > 50) * 1.0
            elif dt[0] == 'u':
                r, J = np.abs(r), np.abs(J)
            J = J[:, :n]
            if t is not None:
                r = r.astype(t) if 'r' in which else r
                J = J.astype(t) if 'J' in which else J
            return r, J

        tr.append(drive(o, np.array(x0), env, holder=h))
        out.add('traces_validated_against_impl')
    out.add('dtype_pairs')
    x = diff(*tr)
    if x:
        out.violation(f'residuals of type {dt} ({which}, m={m}) differ: {x}',
                      {'typed': [ks, m, so, st, sc, dt, which, acts]})


def replay(c, out):
    def act(a):
        i = a[0] if a[0] in ('nan', 'inf') else int(a[0])
        return (i, int(a[1]), float(a[2]))

    if 'typed' in c:
        typed(*c['typed'], out)
    elif 'whole' in c:
        whole(*c['whole'], out)
    elif 'int' in c:
        ks, m, so, st, acts = c['int']
        integer2(ks, m, so, st, [act(a) for a in acts], out)
    else:
        ks, m, so, st, acts, mode = c['seq']
        acts = tuple(act(a) for a in acts)
        (compare if mode in (None, GN) else scheme)(
            ks, m, so, st, acts, mode, out)
