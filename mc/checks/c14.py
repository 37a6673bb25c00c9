"""C14: structured and hybrid approximations against reference schemes."""

import itertools

import fides
import numpy as np

from .. import engine, exact as ex, loop, secant
from ..core import Quad, drive, make
from ..env import deviations, spread
from ..lsq import _J, _R
from ..spaces import box
from .c13 import gradchange

PID = 'C14'
BOUNDS = {
    'quick': 'residual schemes (SSM, TSSM, GNSBFGS, FX with several phi / '
             'tolerances): all sequences of 3 answers over 10 (residual, '
             'derivative, decrease) actions x 3 boxes x 3 initial matrices; '
             'HybridFixed (switch 1..3): all sequences of 5 answers over 5 '
             'actions; HybridFraction: 32 iterations with every placement '
             'of up to 1 (2 around the end) deviation from three default '
             'patterns; 6 variables and 8 residuals: all histories of 30 '
             'answers of period two; 45 iterations with periodic deviations '
             'of every period for all hybrids with default and other '
             'switching parameters and inner schemes',
    'thorough': 'one answer deeper, more boxes and solvers',
}
RS = ['SSM', 'SSM:phi=1.0', 'SSM:phi=0.4', 'TSSM', 'TSSM:phi=1.0', 'GNSBFGS',
      'GNSBFGS:hybrid_tol=0.5', 'FX', 'FX:hybrid_tol=0.4',
      'FX:happ=fides.DFP()', 'SSM:enforce_curv_cond=False',
      'TSSM:enforce_curv_cond=False']
# (residual direction, derivative, fraction of decrease of the value)
RA = [(0, 1, 0.5), (1, 0, 0.19), (2, 2, 0.21), (3, 1, 0.05), (4, 2, 0.39),
      (1, 3, 0.41), (0, 0, 1e-3), (2, 1, -0.5), (3, 3, 0.98), (1, 2, 1.0)]
# further direction/scale coverage
M = 3
RL = ['FX:happ=fides.SR1()', 'FX:happ=fides.BG()', 'FX:happ=fides.BB()',
      'FX:happ=fides.Broyden(0.5),hybrid_tol=0.1',
      'GNSBFGS:enforce_curv_cond=False', 'SSM:phi=0.9', 'TSSM:phi=0.2']
# default patterns of long histories (small decreases)
LA = [(0, 1, 0.05), (1, 0, 0.19), (2, 2, 0.21), (3, 1, 0.02), (1, 3, 0.42),
      (2, 1, -0.5)]


def alphabet(n):
    """residuals and derivatives; more residuals for more variables"""
    m = M if n <= 3 else n + 2
    J = []
    for i, j in enumerate(_J):
        a = np.array(j)[:m, :n] if n <= 3 else np.array(
            [np.resize(np.roll(j[k % 4], k // 4), n)
             * (1 + 0.1 * ((k + i) % 5)) * (1 - 0.2 * (np.arange(n) // 3))
             for k in range(m)])
        J.append(a)
    R = [np.resize(r, m) * (1 + 0.25 * (np.arange(m) // 4)) for r in _R]
    R = [r / np.linalg.norm(r) if np.any(r) else r for r in R]
    return R, J


def mkapprox(name):
    import fides  # noqa: F401

    cls, _, arg = name.partition(':')
    kw = eval('dict(' + arg + ')', {'fides': fides}) if arg else {}
    return getattr(fides, cls)(**kw), kw


def inner(happ):
    if happ is None:
        return secant.Spec('BFGS')
    sp = secant.Spec(type(happ).__name__)
    if sp.cls == 'Broyden':
        sp.phi = happ.phi
    return sp


def tolerant(a, b, tol):
    return np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol)


class Ref:
    """reference replica; after(step) -> list of admissible matrices"""

    def __init__(self, name, n):
        cls, _, arg = name.partition(':')
        import fides

        self.kw = eval('dict(' + arg + ')', {'fides': fides}) if arg else {}
        self.cls = cls
        self.A = np.eye(n) * np.spacing(1.0)
        self.err = 1e-30
        sp = secant.Spec('Broyden')
        sp.phi = self.kw.get('phi', 0.0)
        sp.enforce = self.kw.get('enforce_curv_cond', True)
        self.sp = sp
        if cls == 'FX':
            happ = self.kw.get('happ')
            self.sp = inner(happ)

    def bu(self, B, s, y, serr):
        adm = secant.admissible(self.sp, B, s, y, serr)
        if not adm or len(adm) != 1:
            return None
        M, tol, kind = adm[0]
        return M, tol, kind

    def step(self, s, serr, r0, J0, r1, J1, H0):
        """(expected H, tolerance, branch) or None if undecided"""
        C = J1.T @ J1
        D = (J1 - J0).T @ r1
        n0, n1 = np.linalg.norm(r0), np.linalg.norm(r1)
        mag = np.abs(C).max()
        if self.cls == 'FX':
            gamma = C @ s + D
            ratio = (n0**2 - n1**2) / n0**2
            tol = self.kw.get('hybrid_tol', 0.2)
            if abs(ratio - tol) < 1e-12:
                return None
            if ratio >= tol:
                return C, 1e-13 * mag, 'dynamic'
            g = self.bu(H0, s, gamma, serr)
            return g and (g[0], 10 * g[1], 'iterative-' + g[2])
        if self.cls == 'SSM':
            g = self.bu(C + self.A, s, D + C @ s, serr)
            if g is None:
                return None
            U = g[0] - (C + self.A)
            if g[2] == 'skip':
                U = 0 * U
            self.A = self.A + U
            self.err = 3 * self.err + 10 * g[1]
            return (C + self.A, self.err + 1e-12 * mag, g[2])
        if n0 == 0:
            return None
        yb = D * (n1 / n0)
        if self.cls == 'TSSM':
            if n1 == 0:
                return C, 1e-13 * mag, 'zero-residual'
            bs = C + n1 * self.A
            g = self.bu(bs, s, C @ s + yb, serr)
            if g is None:
                return None
            if g[2] != 'skip':
                self.A = self.A + (g[0] - bs) / n1
                self.err = 3 * self.err + 10 * g[1] / n1
            return (C + n1 * self.A, n1 * self.err + 1e-12 * mag, g[2])
        # GNSBFGS
        ratio = yb @ s / (s @ s)
        tol = self.kw.get('hybrid_tol', 1e-6)
        if abs(ratio - tol) <= (1e-9 + serr) * (
            np.linalg.norm(yb) / np.linalg.norm(s) + tol
        ):
            return None
        if ratio > tol:
            g = self.bu(self.A, s, yb, serr)
            if g is None:
                return None
            if g[2] != 'skip':
                self.A = g[0]
                self.err = 3 * self.err + 10 * g[1]
            return C + self.A, self.err + 1e-12 * mag, 'sbfgs'
        return (C + n1 * np.eye(len(s)), 1e-12 * (mag + n1), 'gauss-newton')


    def sync(self, H, r, J, kind):
        """continue from the observed matrix, which is within its tolerance,
        where the structured part can be read off"""
        C = J.T @ J
        n1 = np.linalg.norm(r)
        if self.cls == 'FX' or kind in ('gauss-newton', 'zero-residual'):
            return
        sc = n1 if self.cls == 'TSSM' else 1.0
        err = 4e-16 * (np.abs(H).max() + np.abs(C).max()) / sc
        if err < self.err:
            self.A, self.err = (H - C) / sc, err


    def resync(self, H, r, J):
        """restart from an observed matrix; False if that is impossible"""
        if not np.all(np.isfinite(H)):
            return False
        C = J.T @ J
        n1 = np.linalg.norm(r)
        kind = ''
        if self.cls == 'GNSBFGS' and np.abs(
            H - C - n1 * np.eye(len(C))
        ).max() <= 1e-6 * (np.abs(C).max() + n1):
            return False  # might be either branch
        if self.cls == 'TSSM' and n1 == 0:
            return False
        self.err = np.inf
        self.sync(H, r, J, kind)
        return True


def hess0(kind, n, H):
    if kind == 'I':
        return None, np.eye(n)
    if kind == 'h':
        return 'hess', H
    m = 2.0 * np.eye(n) + 0.5
    return m, m


def rescase(name, ks, h0, solver, strat, acts, out):
    lb, ub, x0 = (np.array(a) for a in box(ks))
    n = len(x0)
    happ, _ = mkapprox(name)
    o, holder = make(lb, ub, solver, strat, hess_update=happ, resfun=True,
                     maxiter=len(acts), **loop.NOCONV)
    R, J = alphabet(n)
    r_init, J_init = 2.0 * R[1], J[0]

    def env(k, x, snap):
        if k == 0:
            return r_init.copy(), J_init.copy()
        ri, ji, q = acts[k - 1]
        f1 = max(snap.f * (1 - q), 0.0)
        return R[ri] * np.sqrt(2 * f1), J[ji].copy()

    H0arg, H0 = hess0(h0, n, J_init.T @ J_init)
    tr = drive(o, x0, env, hess0=H0arg, holder=holder)
    out.add('traces_validated_against_impl')
    case = {'name': name, 'ks': ks, 'h0': h0, 'solver': solver,
            'strat': strat, 'acts': acts}
    tag = f'{name} {ks} {acts}'
    if len(tr.calls) < 2:
        out.violation(f'{tag}: run failed: {tr.exc!r}', case)
        return
    if not tolerant(tr.snaps[1].H, H0, 1e-14 * np.abs(H0).max()):
        out.violation(f'{tag}: initial matrix {tr.snaps[1].H}', case)
        return
    ref = Ref(name, n)
    cur = tr.calls[0][1]
    for st in tr.steps:
        out.add('transitions')
        acc = st.post.f != st.pre.f or not np.array_equal(st.post.x,
                                                          st.pre.x)
        if not acc:
            if not np.array_equal(st.post.H, st.pre.H):
                out.violation(f'{tag}: matrix changed by rejected step',
                              case)
                return
            out.add('rejected')
            continue
        s = st.xt - st.pre.x
        ulp = np.spacing(np.maximum(np.abs(st.xt), np.abs(st.pre.x)))
        ns = np.linalg.norm(s)
        serr = float(np.linalg.norm(2 * ulp) / ns) if ns > 0 else 1.0
        if serr > 1e-7:
            out.add('undecided')
            return
        res = ref.step(s, serr, cur[0], cur[1], st.ans[0], st.ans[1],
                       st.pre.H)
        cur = st.ans
        if res is None or res[1] > 1e-3 * np.abs(res[0]).max():
            out.add('undecided')
            if not ref.resync(st.post.H, *st.ans):
                return
            continue
        H, tol, kind = res
        out.add('branch_' + kind)
        if not tolerant(st.post.H, H, tol + 1e-12 * np.abs(H).max()):
            out.violation(
                f'{tag} iteration {st.k}: matrix differs from the published '
                f'scheme ({kind}) by {np.abs(st.post.H - H).max():.2e}, '
                f'tolerance {tol:.1e}', case)
            return
        ref.sync(st.post.H, st.ans[0], st.ans[1], kind)
    if tr.ret is not None and not np.array_equal(tr.ret[3], tr.final.H):
        out.violation(f'{tag}: returned Hessian differs', case)
    if not out.samples:
        out.sample({**case, 'H': [s.H for s in tr.snaps[1:]]})


# residuals for which the decrease equals the tolerance exactly
EXACT = [(0.75, [2.0, 0.0], [1.0, 0.0]), (0.75, [0.0, 4.0], [2.0, 0.0]),
         (0.0, [1.0, 2.0], [2.0, -1.0]), (1.0, [1.0, 2.0], [0.0, 0.0]),
         (0.9375, [4.0, 0.0], [0.0, 1.0])]


def fxexact(out):
    """the switching condition of FX (>=) at and next to equality"""
    s, y = np.array([1.0, 0.5]), np.array([0.5, 1.0])
    C = np.array([[3.0, 1.0], [1.0, 2.0]])
    for tol, r0, r1 in EXACT:
        for eps in (0.0, 1e-3, -1e-3):
            for pre in range(3):
                h = fides.FX(hybrid_tol=tol + eps)
                h._init_mat(2)
                for _ in range(pre):
                    h.update(0.5 * y, s, np.array([1.0, 0.0]),
                             np.array([1.0, 0.0]), 5 * C)
                B = h.get_mat().copy()
                h.update(s, y, np.array(r1), np.array(r0), C.copy())
                out.add('transitions')
                out.add('states')
                g, _, _ = secant.admissible(inner(None), B, s, y, 0.0)[0]
                want = g if eps > 0 else C
                if not tolerant(h.get_mat(), want, 1e-12):
                    out.violation(
                        f'FX with tolerance {tol + eps}: residuals {r0} -> '
                        f'{r1}: matrix {h.get_mat().tolist()}',
                        {'fxexact': [tol, r0, r1, eps]})
                    return


# ----------------------------------------------------------------- hybrids
HL = ['HybridFixed', 'HybridFixed:happ=fides.DFP()',
      'HybridFixed:happ=fides.SR1(),switch_iteration=5',
      'HybridFixed:happ=fides.Broyden(0.5),switch_iteration=10',
      'HybridFixed:happ=fides.BG(),switch_iteration=7',
      'HybridFixed:happ=fides.BB(),switch_iteration=4',
      'HybridFraction:happ=fides.DFP()',
      'HybridFraction:happ=fides.Broyden(0.3),switch_threshold=0.4',
      'HybridFraction:happ=fides.BB(),switch_threshold=0.6',
      'HybridFraction:switch_threshold=0.02',
      'HybridFraction:switch_threshold=0.95']
HACT = [(1.0, 'pos', 'p'), (0.5, 'pos2', 'i'), (-1.0, 'pos', 'b'),
        (0.3, 'far', 'q'), (0.01, 'pos2', 'p')]


ALT = [[1.0, -2.0, 0.5], [-1.5, 1.0, -2.0], [-0.2, 0.7, 1.0]]


def hybcase(name, ks, h0, solver, strat, acts, out, opts):
    from ..env import hess

    lb, ub, x0 = (np.array(a) for a in box(ks))
    n = len(x0)
    happ, kw = mkapprox(name)
    cls = name.partition(':')[0]
    sp = inner(kw.get('happ'))
    o, holder = make(lb, ub, solver, strat, hess_update=happ,
                     maxiter=len(acts), **{**loop.NOCONV, **opts})
    G0 = spread([1.0, -2.0, 0.5], n)
    Hinit = hess('p', n)

    def env(k, x, snap):
        if k == 0:
            return 1.0, G0.copy(), Hinit.copy()
        rho, yk, hk = acts[k - 1]
        s = x - snap.x
        if yk == 'alt':
            g = spread(ALT[k % 3], n)
        else:
            g = snap.g + gradchange(yk, s, np.eye(n))
        q = Quad(snap.x, snap.g, snap.H, lb, ub)
        ss, _ = q.scaled(x)
        aug = 0.5 * np.sum(ss * q.dv * np.abs(g) * ss)
        return snap.f - aug - rho * max(-q.q(ss), 1e-9), g, hess(hk, n)

    H0arg, H0 = hess0(h0, n, Hinit)
    tr = drive(o, x0, env, hess0=H0arg, holder=holder)
    out.add('traces_validated_against_impl')
    case = {'name': name, 'ks': ks, 'h0': h0, 'solver': solver, 'opts': opts,
            'strat': strat, 'acts': acts, 'hyb': True}
    tag = f'{name} {ks} {acts if len(acts) < 9 else ""}'
    if len(tr.calls) < 2:
        out.violation(f'{tag}: run failed: {tr.exc!r}', case)
        return
    if not tolerant(tr.snaps[1].H, H0, 1e-14 * np.abs(H0).max()):
        out.violation(f'{tag}: initial matrix {tr.snaps[1].H}', case)
        return
    B, Berr = H0, 0.0
    since = 0
    low = high = 0  # intermediate iterations: certainly / at most
    sw = (False, False)  # switched: certainly / possibly
    for st in tr.steps:
        out.add('transitions')
        acc = st.post.f != st.pre.f or not np.array_equal(st.post.x,
                                                          st.pre.x)
        upd = st.post.delta != st.pre.delta
        since = 0 if upd else since + 1
        rho = acts[st.k - 1][0]
        if not upd and acc:
            high += 1
            if rho < 0.7:
                low += 1
        if not acc:
            if not np.array_equal(st.post.H, st.pre.H):
                out.violation(f'{tag}: matrix changed by rejected step',
                              case)
                return
            continue
        s = st.xt - st.pre.x
        ulp = np.spacing(np.maximum(np.abs(st.xt), np.abs(st.pre.x)))
        ns = np.linalg.norm(s)
        serr = float(np.linalg.norm(2 * ulp) / ns) if ns > 0 else 1.0
        if serr > 1e-7:
            out.add('undecided')
            return
        adm = secant.admissible(sp, B, s, st.ans[1] - st.pre.g, serr)
        if not adm or len(adm) != 1:
            out.add('undecided')
            return
        B, tol, _ = adm[0]
        Berr = 1.2 * Berr + 10 * tol + 1e-13 * np.abs(B).max()
        if Berr > 1e-3 * np.abs(B).max():
            out.add('undecided')
            return
        dyn = tolerant(st.post.H, np.asarray(st.ans[2]), 0.0)
        itv = tolerant(st.post.H, B, Berr + 1e-12 * np.abs(B).max())
        if sw[0] and not itv:
            out.violation(f'{tag} iteration {st.k}: not switched to the '
                          f'iterative scheme: {st.post.H} vs {B}', case)
            return
        if not sw[1] and not dyn:
            out.violation(f'{tag} iteration {st.k}: dynamic matrix not used: '
                          f'{st.post.H}', case)
            return
        if not (dyn or itv):
            out.violation(f'{tag} iteration {st.k}: neither dynamic nor '
                          f'iterative matrix: {st.post.H}', case)
            return
        out.add('branch_iterative' if sw[0] else 'branch_dynamic')
        if sw[0] != sw[1]:
            out.add('ambiguous')
            if dyn != itv:  # resolved by observation
                sw = (itv, itv)
        # switching condition, effective from the next accepted step
        if cls == 'HybridFixed':
            c = since >= kw.get('switch_iteration', 20)
            sw = (sw[0] or c, sw[1] or c)
        elif st.k > 25:
            th = kw.get('switch_threshold', 0.8)
            sw = (sw[0] or low / st.k > th, sw[1] or high / st.k > th)


def tasks(tier):
    quick = tier == 'quick'
    out = []
    d = 3 if quick else 4
    for name in RS:
        for ks in (['uu', 'bl', 'u'] if quick else ['uu', 'bl', 'u', 'uuu',
                                                    'ZU']):
            for h0 in ('I', 'h', 'm'):
                for so, st in ([('2D', 'reflect')] if quick else
                               [('2D', 'reflect'), ('full', 'truncate')]):
                    if quick and (h0 == 'm') != (ks == 'bl'):
                        continue
                    if quick and h0 == 'h' and ks == 'uu' and ':' in name:
                        continue
                    out.append(('res', name, ks, h0, so, st, d))
    for name in RS + RL:
        for ks in (['u' * 6, 'bulZub'] if quick else
                   ['u' * 6, 'bulZub', 'uuu', 'u' * 9]):
            for h0 in ('I', 'h'):
                if quick and (h0 == 'h') != (ks[0] == 'b'):
                    continue
                out.append(('long', name, ks, h0, quick))
    for hn in ['HybridFixed:switch_iteration=1',
               'HybridFixed:switch_iteration=2',
               'HybridFixed:switch_iteration=3',
               'HybridFixed:happ=fides.SR1(),switch_iteration=2']:
        for ks in ['uu', 'bl'] if quick else ['uu', 'bl', 'uuu', 'b']:
            for h0 in ('I', 'h', 'm'):
                if quick and (h0 == 'm') != (ks == 'bl'):
                    continue
                for a in HACT:
                    out.append(('hyb', hn, ks, h0, a, 6 if not quick
                                else 5 if h0 == 'I' else 4))
    for hn in HL:
        for ks in (['uu', 'bulZub'] if quick else ['u', 'uu', 'bulZub',
                                                   'u' * 9]):
            out.append(('hlong', hn, ks, quick))
    for hn in ['HybridFraction', 'HybridFraction:switch_threshold=0.5',
               'HybridFraction:happ=fides.SR1(),switch_threshold=0.3']:
        for ks in ['uu', 'u']:
            for dflt in ([(0.5, 'alt', 'p'), (0.3, 'alt', 'b')] if quick
                         else [(0.5, 'alt', 'p'), (0.3, 'alt', 'b'),
                               (0.7, 'alt', 'q'), (0.5, 'pos', 'p')]):
                out.append(('frac', hn, ks, dflt, quick))
    return out + [('fxexact',)]


def work(task):
    out = engine.Out()
    if task[0] == 'fxexact':
        fxexact(out)
        return out
    if task[0] == 'res':
        _, name, ks, h0, so, st, d = task
        for acts in itertools.product(RA, repeat=d):
            rescase(name, ks, h0, so, st, acts, out)
            out.add('states')
            if len(out.viol) > 3:
                break
    elif task[0] == 'long':
        _, name, ks, h0, quick = task
        N = 30 if quick else 60
        for a, b in itertools.product(LA, repeat=2):
            if a > b and quick:
                continue
            rescase(name, ks, h0, '2D', 'reflect',
                    tuple((a, b)[i % 2] for i in range(N)), out)
            out.add('states')
            if len(out.viol) > 3:
                break
    elif task[0] == 'hyb':
        _, name, ks, h0, a, d = task
        for acts in itertools.product(HACT, repeat=d - 1):
            hybcase(name, ks, h0, '2D', 'reflect', (a,) + acts, out, {})
            out.add('states')
            if len(out.viol) > 3:
                break
    elif task[0] == 'hlong':
        _, name, ks, quick = task
        N = 45
        base = (0.5, 'alt', 'p')
        seqs = []
        for dev in ((-1.0, 'alt', 'p'), (1.0, 'pos', 'b'), (0.01, 'far', 'q')):
            for p in (range(6, N, 4 if len(ks) < 4 else 9) if quick else range(1, N)):
                for ph in ((0, p // 2) if quick else range(0, p, 3)):
                    seqs.append(tuple(dev if i % p == ph else base
                                      for i in range(N)))
        for acts in seqs:
            hybcase(name, ks, 'I', '2D', 'reflect', acts, out, {})
            out.add('states')
            if len(out.viol) > 3:
                break
    else:
        _, name, ks, dflt, quick = task
        seqs = list(deviations(dflt, [(-1.0, 'alt', 'p'), (1.0, 'alt', 'p'),
                                      (0.01, 'alt', 'b')], 32, 1))
        # two and more deviations: blocks of rejected/poor steps of all
        # lengths at all starts
        for a in ((-1.0, 'alt', 'p'), (0.01, 'alt', 'b')):
            for L in range(2, 30, 1):
                for st in range(0, 33 - L, 5 if quick else 1):
                    seqs.append((dflt,) * st + (a,) * L
                                + (dflt,) * (32 - st - L))
        # alternating patterns with period p
        for p in range(2, 12):
            for ph in range(p):
                seqs.append(tuple(
                    (-1.0, 'alt', 'p') if i % p == ph else dflt
                    for i in range(34)))
        opts = {'gamma1': 0.9}
        for acts in seqs:
            hybcase(name, ks, 'I', '2D', 'reflect', acts, out, opts)
            out.add('states')
            if len(out.viol) > 3:
                break
    return out


def replay(c, out):
    if 'fxexact' in c:
        return fxexact(out)
    acts = []
    for a in c['acts']:
        if c.get('hyb'):
            acts.append((float(a[0]), a[1], a[2]))
        else:
            acts.append((a[0], a[1], float(a[2])))
    acts = tuple(acts)
    if c.get('hyb'):
        hybcase(c['name'], c['ks'], c['h0'], c['solver'], c['strat'], acts,
                out, {k: float(v) for k, v in c['opts'].items()})
    else:
        rescase(c['name'], c['ks'], c['h0'], c['solver'], c['strat'], acts,
                out)
