"""C25: order, orientation and origin of the variables do not matter."""

import itertools

import numpy as np

from .. import engine, loop
from ..core import COMBOS_FAST, Quad, drive
from ..env import Prob, scaled, answer, default_opt, needs_hess, undesc, _act
from ..spaces import box

PID = 'C25'
BOUNDS = {
    'quick': 'n=1: 6 kinds of bounds, n=2: all pairs of 6 kinds, n=3: 8 '
             'boxes; 8 gradients x 8 Hessians x 3 radii (every 7th of the '
             'product, offset by box) followed by 4 kinds of answers; all '
             'fast solver/strategy pairs, exact Hessians, BFGS, SR1, BB, '
             'HybridFixed; all mirrorings, permutations and 2 '
             'translations; every third objective also scaled by 1e-18 or '
             '1e12',
    'thorough': 'every element of the product, histories of 3 answers, '
                'refinement',
}
ASSUMPTIONS = ['runs are compared up to rounding (1e-6 of step and distance '
               'to the bounds); after two equally good steps (model values '
               'equal up to 1e-8) they are not compared any more; runs that '
               'depend on perturbations of 1e-12 are not judged']
KS = 'ulLUbw'
SCALE = [1e-18, 1e12]
SHIFT = [2.0, -0.75]
G = ['a', 'b', 'd', 'e', 'f', 't', 'h', 's']
H = ['p', 'i', 'n', 'b', 'q', 'r', 'I', '0']
HIST = [
    ((1.0, 'b', 'p'), (0.5, 'e', 'i')),
    ((-1.0, 'b', 'p'), (0.5, 'e', 'p')),
    (('nan', 'a', 'p'), (1.0, 'f', 'n')),
    ((0.1, 'd', 'q'), (0.9, 'b', 'b')),
]


class T:
    """x -> sign * x[perm] + shift"""

    def __init__(self, perm, sign, shift):
        self.perm, self.sign = list(perm), np.array(sign, float)
        self.shift = float(shift)

    def vec(self, g):
        return self.sign * g[self.perm]

    def pt(self, x):
        return self.vec(x) + self.shift

    def mat(self, M):
        M = M[np.ix_(self.perm, self.perm)]
        return self.sign[:, None] * M * self.sign[None, :]

    def prob(self, p):
        a, b = self.pt(p.lb), self.pt(p.ub)
        return Prob(np.minimum(a, b), np.maximum(a, b), self.pt(p.x0),
                    p.solver, p.strat, init=p.init, update=p.update,
                    **p.opts)


def transforms(n):
    idp, one = range(n), [1.0] * n
    for sg in itertools.product((1, -1), repeat=n):
        if -1 in sg:
            yield T(idp, sg, 0.0)
    for pm in itertools.permutations(idp):
        if list(pm) != list(idp):
            yield T(pm, one, 0.0)
    for s in SHIFT:
        yield T(idp, one, s)
    if n > 1:
        yield T(list(idp)[::-1], [-1.0] + one[1:], 0.0)


def base(p, acts):
    o, h = default_opt(p, len(acts))
    seq = (p.init,) + tuple(acts)
    full = []

    def env(k, x, snap):
        a = answer(p, snap, x, seq[min(k, len(seq) - 1)], k)
        full.append(a)
        return a if p.update is None or needs_hess(p.update) else a[:2]

    tr = drive(o, p.x0.copy(), env, holder=h)
    tr.full = full
    return tr


def image(p, tr, t, pert=None):
    q = t.prob(p)
    o, h = default_opt(q, len(tr.full) - 1)

    def env(k, x, snap):
        f, g, M = tr.full[min(k, len(tr.full) - 1)]
        a = (f, t.vec(g), t.mat(M))
        if pert is not None:
            c = np.array(pert[:p.n])
            d = np.array(PERT[PERT.index(pert) - 1])[::-1][:p.n] + .3
            S = np.outer(c, d) + np.outer(d, c) + np.diag(c * c[0])
            w = 1e-12 * max(np.max(np.abs(a[2])), 1e-3 * p.init[0]) if np.isfinite(
                a[2]).all() else 0.0
            a = (f, a[1] * (1 + 1e-12 * c), a[2] + w * S)
        return a if p.update is None or needs_hess(p.update) else a[:2]

    return q, drive(o, q.x0.copy(), env, holder=h)


PERT = [(1, -.7, .4), (-1, .3, .9), (.2, 1, -1), (-.5, -.9, .1),
        (.8, .6, 1), (-.3, .5, -.8)]


def unstable(p, tr, out):
    """a decision of the run is within the rounding errors: the run differs
    after perturbations of 1e-12"""
    t = T(range(p.n), [1.0] * p.n, 0.0)
    for c in PERT:
        q, ti = image(p, tr, t, c)
        if compare(p, tr, q, ti, t, out, 1e-7, False):
            return True
    return False


def compare(p, tr, q, ti, t, out, tol=1e-6, ties=True):
    """None or a description"""
    m = min(len(tr.calls), len(ti.calls))
    for k in range(1, m):
        a, b = tr.snaps[k], ti.snaps[k]
        ea, eb = t.pt(a.x), b.x
        sc = tol * np.maximum(1e-6, np.minimum(
            1 + np.abs(ea), np.minimum(b.x - q.lb, q.ub - b.x)))
        # (relative to the distance to the bounds)
        if np.any(np.abs(ea - eb) > sc):
            return f'iterate {k} is {eb}, expected {ea}'
        if abs(a.delta - b.delta) > tol * a.delta:
            return f'radius {k} is {b.delta!r}, expected {a.delta!r}'
        xa, xb = t.pt(tr.calls[k][0]), ti.calls[k][0]
        st = np.max(np.abs(xa - ea))
        if np.any(np.abs(xa - xb) > tol * st + 1e-13 * (1 + np.abs(xa))):
            A = Quad(a.x, a.g, a.H, p.lb, p.ub, p.opt('theta_max'))
            B = Quad(b.x, b.g, b.H, q.lb, q.ub, q.opt('theta_max'))
            qa = A.q(A.scaled(tr.calls[k][0])[0])
            qb = B.q(B.scaled(xb)[0])
            if ties and abs(qa - qb) <= 1e-8 * max(abs(qa), abs(qb)) + 1e-12 * max(
                1e-6 * p.init[0], np.max(np.abs(A.sg))
            ):
                out.add('ties')
                return None
            return (f'trial point {k} is {xb} (model value {qb:.6g}), '
                    f'expected {xa} ({qa:.6g})')
        out.add('transitions')
    if len(tr.calls) != len(ti.calls):
        return f'{len(ti.calls)} evaluations instead of {len(tr.calls)}'
    if tr.final.flag != ti.final.flag or (tr.exc is None) != (
        ti.exc is None
    ):
        return f'{ti.final.flag!r} {ti.exc!r} vs {tr.final.flag!r} {tr.exc!r}'
    if tr.ret is not None:
        if tr.ret[0] != ti.ret[0]:
            return f'result {ti.ret[0]!r} instead of {tr.ret[0]!r}'
        E, M = t.mat(np.asarray(tr.ret[3])), np.asarray(ti.ret[3])
        if np.any(np.abs(E - M) > 1e-5 * (1e-3 + np.max(np.abs(E)))):
            return f'Hessian {M} instead of {E}'
    return None


def case(p, acts, out, ts=None):
    tr = base(p, acts)
    out.add('states')
    out.add('traces_validated_against_impl')
    for i, t in enumerate(transforms(p.n)):
        if ts is not None and i not in ts:
            continue
        q, ti = image(p, tr, t)
        out.add('traces_validated_against_impl')
        d = compare(p, tr, q, ti, t, out)
        if d:
            if unstable(p, tr, out):
                out.add('unstable')
                continue
            out.violation(
                f'{p.solver}/{p.strat}/{p.update} order {t.perm} orientation '
                f'{t.sign.tolist()} shift {t.shift}: {d}',
                {'prob': p.desc(), 'acts': acts, 't': [i]})
            if len(out.viol) > 2:
                return
    if not out.samples:
        out.sample({'prob': p.desc(), 'acts': acts,
                    'points': [c[0] for c in tr.calls]})


UPD = [None, None, 'BFGS', None, 'SR1', None, 'BB',
       'HybridFixed:switch_iteration=1']


def boxes():
    yield from KS
    yield from (''.join(z) for z in itertools.product(KS, repeat=2))
    yield from ('uuu', 'LUb', 'bbb', 'lUu', 'wbL', 'LLU', 'uUb', 'wuL')


def tasks(tier):
    out = []
    quick = tier == 'quick'
    for i, ks in enumerate(boxes()):
        for j, c in enumerate(COMBOS_FAST):
            out.append((ks, c, (i + j) % 7 if quick else None, quick))
        if not quick:
            for so in ('2D', 'full'):
                out.append((ks, (so, 'refine'), i % 60, True))
    return out


def work(task):
    ks, (so, st), off, quick = task
    out = engine.Out()
    lb, ub, x0 = box(ks)
    step = 60 if st == 'refine' else 7
    if len(ks) == 3:
        step *= 3
    for i, (g, h, d0) in enumerate(itertools.product(G, H, (1.0, .05, 30.))):
        if off is not None and i % step != off % step:
            continue
        hs = [HIST[(i // step + len(ks)) % 4]] if quick else [
            a + ((0.5, 'c', 'p'),) for a in HIST]
        for a in hs:
            u = UPD[(i // step) % len(UPD)]
            p = Prob(lb, ub, x0, so, st, init=(1.0, g, h), delta_init=d0,
                     update=u, **loop.NOCONV)
            case(p, a, out)
            if u is None and i % 3 == 0:
                # objectives of tiny and huge scale
                c = SCALE[(i // 3) % 2]
                p = Prob(lb, ub, x0, so, st, init=(c, *scaled([g, h], c)),
                         delta_init=d0, **loop.NOCONV)
                case(p, [(r, *scaled([y, z], c)) for r, y, z in a], out)
        if len(out.viol) > 2:
            break
    return out


def replay(c, out):
    case(undesc(c['prob']), [_act(a) for a in c['acts']], out, c['t'])
