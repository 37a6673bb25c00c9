"""C10: exit flags are truthful and raised at the first opportunity."""

import itertools

from .. import loop
from ..core import COMBOS_FAST
from ..env import Prob
from ..spaces import EXTRA, box, extra

PID = 'C10'
BOUNDS = {
    'quick': 'tolerance lattice fatol{0,1e-3,.1,1,10} x frtol{0,1e-2,1} x '
             'xtol{0,1e-2,.3,2} x gatol{0,1e-6,1,2.3} x grtol{0,.1,5} '
             '(720 settings, each x every action sequence of length 2 over 8 '
             'actions, 3 boxes), single tolerances x sequences of length 4'
             + EXTRA,
    'thorough': 'sequences of length 3, 6 boxes, 4 solvers',
}
ALPHA = [(1.0, 'a', 'p'), (0.3, 's', 'p'), (0.2, 'b', 'i'), (-1.0, 's', 'p'),
         (-1.0, 'a', 'b'), ('nan', 'z', 'p'), (0.9, 'z', 'b'),
         ('low', 'f', 'p')]
FA, FR = [0.0, 1e-3, 0.1, 1.0, 10.0], [0.0, 1e-2, 1.0]
XT, GA, GR = [0.0, 1e-2, 0.3, 2.0], [0.0, 1e-6, 1.0, 2.3], [0.0, 0.1, 5.0]


def tasks(tier):
    quick = tier == 'quick'
    out = []
    kinds = ['uu', 'bZ', 'u'] if quick else ['uu', 'bZ', 'u', 'Lb', 'BU', 'b']
    combos = [('2D', 'reflect')] if quick else COMBOS_FAST[::3]
    depth = 2 if quick else 3
    seqs = list(itertools.product(ALPHA, repeat=depth))
    full = list(itertools.product(FA, FR, XT, GA, GR))
    inits = [(1.0, 'a', 'p'), (-0.5, 's', 'b'), (0.0, 'z', 'i')]
    for ki, ks in enumerate(kinds):
        lb, ub, x0 = box(ks)
        for so, st in combos:
            batch = []
            for ti, t in enumerate(full):
                o = dict(zip(('fatol', 'frtol', 'xtol', 'gatol', 'grtol'), t))
                init = inits[(ti + ki) % 3]
                p = Prob(lb, ub, x0, so, st, init=init, **o)
                s = seqs
                if quick:
                    s = seqs[(ti + ki) % 3::3]
                batch.append((p, s, depth))
                if len(batch) >= 40:
                    out.append(batch)
                    batch = []
            if batch:
                out.append(batch)
    # one tolerance at a time, deeper, budget larger than the sequence
    small = [ALPHA[0], ALPHA[1], ALPHA[3], ALPHA[4], ALPHA[6], ALPHA[7]]
    deep = list(itertools.product(small, repeat=3 if quick else 4))
    for name, vals in (('fatol', FA), ('frtol', FR), ('xtol', XT),
                       ('gatol', GA), ('grtol', GR)):
        for v in vals[1:]:
            for ks in ('uu', 'bZ', 'LU'):
                lb, ub, x0 = box(ks)
                o = dict(loop.NOCONV)
                o[name] = v
                p = Prob(lb, ub, x0, 'full', 'mixed', init=inits[0], **o)
                out.append([(p, deep, 5)])
    # default tolerances, every strategy
    for so, st in COMBOS_FAST:
        for ks in ('uu', 'bZ'):
            lb, ub, x0 = box(ks)
            for init in inits:
                p = Prob(lb, ub, x0, so, st, init=init)
                out.append([(p, deep[::2], 5)])
    out += extra(quick, opts={})
    return out + extra(quick, bad=[('low', 'h', 'p'), ('nan', 'z', 'p'),
                                   (0.9, 'z', 'b')],
                       opts=dict(loop.NOCONV, fatol=1e-6, xtol=1e-4))


def work(task):
    return loop.work_loop(PID, task)


def replay(case, out):
    loop.replay_loop(PID, case, out)
