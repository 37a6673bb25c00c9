"""C21: fraction of the distance to the bounds that one step may use."""

import itertools

import numpy as np

from .. import engine, loop
from ..core import COMBOS, COMBOS_FAST, NUDGE, Quad
from ..env import Prob, run, undesc, _act
from ..spaces import EXTRA, extra
from . import c06

PID = 'C21'
BOUNDS = {
    'quick': 'state lattice of C06 (n=1,2 all pairs of 8 kinds, n=3 8 boxes; '
             '9 gradients x 9 Hessians x 4 radii x 3 fractions, every 7th), '
             'all combinations, two steps; n=1..3 histories of length 4 over '
             '4 actions and persistent ones of length 20; '
             '20, 70 and 130 variables (3 boxes x 3 gradients x 2 Hessians x '
             '2 radii)'
             + EXTRA,
    'thorough': 'every 2nd, all triples of 6 kinds, histories of length 5',
}
ASSUMPTIONS = ['positions are judged up to 4 units in the last place of the '
               'variable and its bound']


def tasks(tier):
    quick = tier == 'quick'
    boxes = list(c06.X) + [''.join(p) for p in itertools.product(c06.X,
                                                                 repeat=2)]
    tri = ['ubZ', 'cLU', 'bcl', 'Zbb', 'LUc', 'bbb', 'lcw', 'ccc']
    if not quick:
        tri += [''.join(p) for p in itertools.product('uLUbcZ', repeat=3)]
    out = []
    for i, ks in enumerate(boxes + tri):
        for so, st in COMBOS:
            if st == 'refine' and quick and i % 8:
                continue
            out.append(('one', ks, so, st, i, quick))
    for ks in ('b', 'Z', 'bL', 'cU', 'Zb', 'bbb', 'cLU'):
        for so, st in COMBOS_FAST:
            for th in (0.95, 0.5):
                out.append(('hist', ks, so, st, th, quick))
    for n in (20, 70, 130):
        for so, st in COMBOS_FAST:
            out.append(('big', n, so, st))
    return out + extra(quick)


def judge(p, tr, out, case):
    for st in tr.steps:
        pre, xt = st.pre, st.xt
        q = Quad(pre.x, pre.g, pre.H, p.lb, p.ub, p.opt('theta_max'))
        out.add('transitions')
        # not necessarily tight: reflected steps turn at the bounds
        tight = p.n == 1 or p.strat in ('truncate', 'refine')
        for i in range(p.n):
            for d, bnd in ((xt[i] - pre.x[i], p.ub[i]),
                           (pre.x[i] - xt[i], p.lb[i])):
                if d <= 0 or not np.isfinite(bnd):
                    continue
                dist = abs(bnd - pre.x[i])
                tol = 4 * np.spacing(max(abs(bnd), abs(pre.x[i])))
                used = d / dist if dist > 0 else np.inf
                if tight:
                    out.add('distances_compared')
                    if d > q.theta * dist * (1 + 1e-9) + tol:
                        out.violation(
                            f'step {st.k} uses {used:.9g} of the distance of '
                            f'variable {i} to its bound, allowed '
                            f'{q.theta:.9g} [{p.solver}/{p.strat}]', case)
                        return
        x = st.post.x
        for bnd in (p.lb, p.ub):
            # the documented distance can be resolved
            fine = np.isfinite(bnd) & (np.spacing(np.abs(bnd)) < NUDGE / 4)
            if np.any(fine & (x == bnd)):
                out.violation(f'iterate {x} on a bound', case)
                return


def one(lb, ub, x0, so, st, gk, hk, d0, th, out):
    p = Prob(lb, ub, x0, so, st, init=(0.0, gk, hk), delta_init=d0,
             theta_max=th, **loop.NOCONV)
    tr = c06.trace(p, gk, hk, 1 if st == 'refine' else 2)
    out.add('traces_validated_against_impl')
    out.add('states', len(tr.calls))
    case = dict(lb=lb, ub=ub, x0=x0, so=so, st=st, gk=gk, hk=hk, d0=d0, th=th)
    if tr.exc is not None:
        out.violation(f'{tr.exc!r} [{so}/{st}]', case)
        return
    judge(p, tr, out, case)
    if not out.samples:
        out.sample({**case, 'points': [z[0] for z in tr.calls]})


def work(task):
    out = engine.Out()
    if isinstance(task, list):
        for p, seqs, _ in task:
            for s in seqs:
                hist(p, s, out)
                if len(out.viol) > 3:
                    break
        return out
    if task[0] == 'one':
        _, ks, so, st, i, quick = task
        lb, ub, x0 = zip(*[c06.X[k] for k in ks])
        lat = c06.points(ks, so, st)
        step = 7 if quick else 2
        if st == 'refine':
            step = 9 if quick else 3
        if len(ks) == 1:
            step = 2 if quick else 1
        for gk, hk, d0, th in lat[i % step::step]:
            one(lb, ub, x0, so, st, gk, hk, d0, th, out)
        return out
    if task[0] == 'big':
        _, n, so, st = task
        d = 0.05 + np.arange(n)[::-1] * 0.04
        for dist, gk, hk, d0 in itertools.product(
            (d, d[::-1], np.roll(d, n // 2)), ('1', '2', '3'), ('D', 'p'),
            (1.0, 50.0)
        ):
            one(-dist, 1.1 * dist, 0 * dist, so, st, gk, hk, d0, 0.95, out)
        return out
    _, ks, so, st, th, quick = task
    lb, ub, x0 = zip(*[c06.X[k] for k in ks])
    acts = [(1.0, 'a', 'p'), (1.0, 'b', '0'), (1.0, 'd', 'i'),
            (-1.0, 'a', 'p')]
    seqs = list(itertools.product(acts, repeat=4 if quick else 5))
    seqs = seqs[::4] if quick else seqs
    seqs += [(a,) * 20 for a in acts[:3]]
    p = Prob(lb, ub, x0, so, st, init=(0.0, 'a', 'p'), theta_max=th,
             **loop.NOCONV)
    for s in seqs:
        hist(p, s, out)
        if len(out.viol) > 3:
            break
    return out


def hist(p, acts, out):
    tr = run(p, acts)
    out.add('traces_validated_against_impl')
    out.add('states', len(tr.calls))
    case = {'prob': p.desc(), 'acts': acts}
    if tr.exc is not None:
        out.violation(f'{tr.exc!r}', case)
    else:
        judge(p, tr, out, case)


def replay(c, out):
    if 'prob' in c:
        return hist(undesc(c['prob']), [_act(a) for a in c['acts']], out)
    f = lambda a: [float(z) for z in a]  # noqa: E731
    one(f(c['lb']), f(c['ub']), f(c['x0']), c['so'], c['st'], c['gk'],
        c['hk'], float(c['d0']), float(c['th']), out)
