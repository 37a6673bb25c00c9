"""C13: secant updates along every history: exact rational reference."""

import itertools

import fides
import numpy as np

from .. import engine, loop, secant
from ..core import EPS, INF, NUDGE, drive, fl, make
from ..env import approx, spread
from ..spaces import box

PID = 'C13'
NAMES = ['BFGS', 'DFP', 'Broyden:phi=0.3', 'SR1', 'BG', 'BB',
         'BFGS:enforce_curv_cond=False', 'DFP:enforce_curv_cond=False',
         'Broyden:phi=0.7,enforce_curv_cond=False', 'Broyden:phi=1.5',
         'Broyden:phi=-0.5']
BOUNDS = {
    'quick': 'update classes: all histories of length 3 (n=2) / 2 (n=1,3) '
             'over 3-4 steps x 12 kinds of gradient changes, from identity, '
             'definite, indefinite and badly scaled matrices; optimizer: all '
             'sequences of 3 (accept/reject, kind of gradient change) '
             'answers, 5 boxes, with and without initial Hessian; all '
             'histories of 40 answers of period two, 3 boxes (up to 6 '
             'variables); update classes for 6 and 9 variables (histories '
             'of up to 2) and all histories of 30 updates of period two',
    'thorough': 'one step deeper, all initial matrices and boxes, '
                'histories of 80 answers',
}
S = {
    1: [[1.0], [-0.3], [1e-5]],
    2: [[1.0, 0.5], [-0.3, 0.7], [0.0, 2.0], [1e-4, -3e-4]],
    3: [[1.0, 0.5, -0.25], [0.0, -0.3, 0.7]],
    6: [[1.0, 0.5, -0.25, 2.0, -1.0, 0.3], [0.0, -0.3, 0.7, 0.0, 0.0, 1e-3]],
    9: [[1.0, 0.5, -0.25, 2.0, -1.0, 0.3, 0.1, -0.2, 0.7],
        [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, -1e-2]],
}
INIT = {
    'I': lambda n: None,
    'p': lambda n: 1.5 * np.eye(n) + 0.5,
    'i': lambda n: np.diag(spread([2.0, -1.0, 0.5], n)) + 0.25,
    'b': lambda n: np.diag(np.resize([1e4, 1e-3, 1.0], n)),
    'a': lambda n: np.eye(n) + np.triu(0.5 * np.ones((n, n)), 1),
}
YK = ['pos', 'pos2', 'neg', 'zero', 'sat', 'perp', 'nperp', 'tiny', 'huge',
      'ndeg', 'far', 'small+']


def perp(s):
    if len(s) == 1:
        return np.zeros(1)
    p = np.zeros(len(s))
    m = len(s) // 2 if len(s) > 3 else 1
    p[0:2 * m:2], p[1:2 * m:2] = -s[1:2 * m:2], s[0:2 * m:2]
    return p


def gradchange(kind, s, B):
    """y for a step s and the current matrix B"""
    n = len(s)
    if kind == 'pos':
        return 2.0 * s
    if kind == 'pos2':
        return 0.5 * s + 1.5 * perp(s)
    if kind == 'neg':
        return -0.7 * s + 0.2 * perp(s)
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'sat':
        return B @ s
    if kind == 'perp':
        return perp(s)
    if kind == 'nperp':
        return perp(s) + 1e-7 * s
    if kind == 'tiny':
        return 1e-9 * (s + perp(s))
    if kind == 'huge':
        return 1e6 * (s - 0.5 * perp(s))
    if kind == 'ndeg':  # residual of secant equation perpendicular to s
        return B @ s + perp(s)
    if kind == 'far':
        return B @ s + 3.0 * s
    if kind == 'small+':
        return B @ s + 1e-6 * (s + perp(s))
    raise KeyError(kind)


# ---------------------------------------------------------------- classes
def classcase(name, n, init, hist, out, spec=None, every=False):
    spec = spec or secant.Spec(name)
    h = approx(name)
    h0 = INIT[init](n)
    h._init_mat(n, h0)
    B = np.array(h.get_mat(), float)
    case = {'name': name, 'n': n, 'init': init, 'hist': hist}
    if not np.array_equal(B, np.eye(n) if h0 is None else h0):
        out.violation('initial matrix differs from the requested one', case)
        return
    for k, (si, yk) in enumerate(hist):
        s = np.array(S[n][si])
        y = gradchange(yk, s, B)
        s0, y0 = s.copy(), y.copy()
        h.update(s, y)
        B1 = np.array(h.get_mat(), float)
        if k == len(hist) - 1 or every:
            out.add('transitions')
            msg, kind = secant.verdict(spec, B, s0, y0, B1)
            out.add('kind_' + str(kind))
            if not (np.array_equal(s, s0) and np.array_equal(y, y0)):
                msg = 'update modified its arguments'
            if msg is None and kind != 'undefined' and (
                    np.abs(B1).max() < 1e100):
                d = np.array(h.get_diff(), float)
                tol = 1e-12 * max(np.abs(B1).max(), np.abs(B).max())
                if not np.all(np.abs(d - (B1 - B)) <= tol):
                    msg = 'get_diff is not the change of the matrix'
            if (msg is None and kind == 'update'
                    and spec.cls in ('BFGS', 'DFP', 'Broyden')
                    and 0 <= spec.phi <= 1 and s0 @ y0 > 0):
                msg = posdef(B, B1)
                out.add('posdef_checked')
            if msg:
                out.violation(f'{name} after {hist[:k + 1]}: {msg}',
                              {**case, 'hist': hist[:k + 1]})
                return
            elif not out.samples:
                out.sample({**case, 'B': B1})
        B = B1
        if not np.all(np.abs(B) < 1e60):  # about to overflow
            out.add('undefined_branches')
            return
    # looking at an approximation does not change it
    for _ in range(130):
        h.get_diff()
        h.get_mat()
    if not np.array_equal(np.array(h.get_mat(), float), B):
        out.violation(f'{name} after {hist}: get_diff or get_mat changes the '
                      'matrix', case)
    out.add('traces_validated_against_impl')


def posdef(B, B1):
    if not np.array_equal(B, B.T):
        return None
    e = np.linalg.eigvalsh(B)
    if e[0] <= 1e-10 * abs(e[-1]):
        return None
    e1 = np.linalg.eigvalsh(0.5 * (B1 + B1.T))
    if e1[0] < -1e-10 * abs(e1[-1]):
        return f'positive definiteness lost: {e1}'
    return None


# -------------------------------------------------------------- optimizer
ACT = [(1.0, 'pos'), (0.3, 'pos2'), (1.0, 'neg'), (0.9, 'zero'),
       (1e-3, 'sat'), (-1.0, 'pos'), ('nan', 'pos2'), (1.0, 'perp'),
       (0.5, 'ndeg'), (1.0, 'far')]


def optcase(name, ks, h0, solver, strat, acts, out):
    """through the optimizer: s from evaluated points, y from the gradients"""
    from ..core import Quad

    lb, ub, x0 = (np.array(a) for a in box(ks))
    n = len(x0)
    spec = secant.Spec(name)
    H0 = INIT[h0](n)
    o, holder = make(lb, ub, solver, strat, hess_update=approx(name),
                     maxiter=len(acts), **loop.NOCONV)
    G0 = spread([1.0, -2.0, 0.5], n)

    def env(k, x, snap):
        if k == 0:
            return 1.0, G0.copy()
        rho, yk = acts[k - 1]
        y = gradchange(yk, x - snap.x, snap.H)
        g = snap.g + y
        if rho == 'nan':
            return np.nan, g
        q = Quad(snap.x, snap.g, snap.H, lb, ub)
        ss, _ = q.scaled(x)
        aug = 0.5 * np.sum(ss * q.dv * np.abs(g) * ss)
        pred = -q.q(ss)
        return snap.f - aug - rho * max(pred, 1e-3), g

    tr = drive(o, x0, env, hess0=H0, holder=holder)
    out.add('traces_validated_against_impl')
    case = {'opt': name, 'ks': ks, 'h0': h0, 'solver': solver,
            'strat': strat, 'acts': acts}
    tag = f'{name} {ks} {acts}'
    if len(tr.calls) > 1:
        H = tr.snaps[1].H
        if not np.array_equal(H, np.eye(n) if H0 is None else H0):
            out.violation(f'{tag}: first step uses {H}', case)
            return
    for st in tr.steps:
        out.add('transitions')
        if st.post is None or st.post.H is None:
            continue
        moved = not np.array_equal(st.post.x, st.pre.x)
        if not moved:
            if st.post.f != st.pre.f or not np.array_equal(st.post.g,
                                                           st.pre.g):
                out.add('undecided')  # accepted step below resolution of x
                continue
            if not np.array_equal(st.post.H, st.pre.H):
                out.violation(f'{tag}: matrix changed by rejected step',
                              case)
                return
            out.add('rejected')
            continue
        s = st.xt - st.pre.x
        y = np.asarray(st.ans[1]) - st.pre.g
        ulp = np.spacing(np.maximum(np.abs(st.xt), np.abs(st.pre.x)))
        serr = float(np.linalg.norm(2 * ulp) / np.linalg.norm(s))
        if serr > 1e-6 or not np.all(np.isfinite(st.pre.H)):
            out.add('undecided')
            continue
        msg, kind = secant.verdict(spec, st.pre.H, s, y, st.post.H, serr)
        out.add('kind_' + str(kind))
        if msg:
            out.violation(f'{tag} iteration {st.k}: {msg}', case)
            return
        if st.k == len(tr.calls) - 1 and tr.ret is not None and not np.array_equal(
            tr.ret[3], st.post.H
        ):
            out.violation(f'{tag}: returned Hessian is not the updated one',
                          case)
            return


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for name in NAMES:
        for n in (1, 2, 3):
            for init in INIT:
                if init == 'a' and name[:2] not in ('BG', 'BB'):
                    continue
                d = 3 if n == 2 and init in 'I' else 2
                if n == 1 and init == 'I':
                    d = 3
                if not quick:
                    d += 1
                al = [(i, k) for i in range(len(S[n])) for k in YK]
                if quick and d == 3 and n == 2:
                    al = [(i, k) for i in (0, 3) for k in YK]
                if quick and d == 3 and n == 1:
                    al = [(i, k) for i in (1, 2) for k in YK]
                for L in range(1, d + 1):
                    hs = itertools.product(al, repeat=L)
                    if L < 3:
                        out.append(('cls', name, n, init, list(hs)))
                    else:
                        for first in al:
                            out.append(('clsx', name, n, init, first, al,
                                        L - 1))
    for name in NAMES:
        for n in (6, 9):
            for init in INIT:
                if init == 'a' and name[:2] not in ('BG', 'BB'):
                    continue
                al = [(i, k) for i in range(2) for k in YK]
                for L in (1, 2):
                    if quick and L == 2 and init != 'ip'[n // 9]:
                        continue
                    out.append(('cls', name, n, init,
                                list(itertools.product(al, repeat=L))))
        for n in (2, 6):
            for init in ('I', 'p', 'b') if n == 2 or not quick else 'I':
                out.append(('clong', name, n, init, 30 if quick else 100))
    kinds = ['uu', 'bl', 'ZU', 'u', 'BZ'] + ([] if quick else ['bbu', 'LwU'])
    depth = 3 if quick else 4
    for name in NAMES:
        for ks in ('uu', 'bl', 'bulZub'):
            out.append(('long', name, ks, 40 if quick else 80))
    for name in NAMES:
        for ks in kinds:
            for h0 in (('I', 'p') if quick else ('I', 'p', 'b')):
                for so, st in ([('2D', 'reflect'), ('full', 'truncate')]
                               if quick else
                               [('2D', 'reflect'), ('full', 'truncate'),
                                ('scg', 'mixed')]):
                    if quick and ((h0 == 'p') != (so == 'full') or
                                  (h0 == 'p') != (ks in ('bl', 'u'))):
                        continue
                    out.append(('opt', name, ks, h0, so, st, depth))
    return out


def work(task):
    out = engine.Out()
    if task[0] == 'cls':
        _, name, n, init, hs = task
        spec = secant.Spec(name)
        for h in hs:
            classcase(name, n, init, h, out, spec)
        out.add('states', len(hs))
    elif task[0] == 'clong':
        _, name, n, init, L = task
        spec = secant.Spec(name)
        for a, b in itertools.product(YK, repeat=2):
            if L < 50 and n > 3 and a > b:
                continue
            classcase(name, n, init,
                      tuple((i % 2 if i % 3 else 0, (a, b)[i % 2])
                            for i in range(L)), out, spec, every=True)
            out.add('states')
            if len(out.viol) > 3:
                break
    elif task[0] == 'clsx':
        _, name, n, init, first, al, L = task
        spec = secant.Spec(name)
        for h in itertools.product(al, repeat=L):
            classcase(name, n, init, (first,) + h, out, spec)
            out.add('states')
            if len(out.viol) > 3:
                break
    elif task[0] == 'long':
        # long histories with period two
        _, name, ks, L = task
        for a, b in itertools.product(ACT, repeat=2):
            optcase(name, ks, 'I', '2D', 'reflect', (a, b) * (L // 2), out)
            out.add('states')
            if len(out.viol) > 3:
                break
    else:
        _, name, ks, h0, so, st, depth = task
        for acts in itertools.product(ACT, repeat=depth):
            optcase(name, ks, h0, so, st, acts, out)
            out.add('states')
            if len(out.viol) > 3:
                break
    return out


def replay(c, out):
    if 'hist' in c:
        return classcase(c['name'], c['n'], c['init'],
                         [tuple(h) for h in c['hist']], out)
    acts = []
    for a in c['acts']:
        r = a[0] if a[0] == 'nan' else float(a[0])
        acts.append((r, a[1]))
    optcase(c['opt'], c['ks'], c['h0'], c['solver'], c['strat'], acts, out)
