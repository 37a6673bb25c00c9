"""C05: trust region radius: bound on the step and update rule."""

import itertools

from .. import engine, loop
from ..core import COMBOS, COMBOS_FAST, INF
from ..env import Prob, run
from ..spaces import EXTRA, box, extra

PID = 'C05'
BOUNDS = {
    'quick': 'radii from 1e-12 to 1e40; ratio classes just below/above mu and eta, 0, negative, large (to 1e7), '
             'NaN, inf x interior/boundary derivatives (every sequence of length '
             '2-3) x 5 radius-rule configurations x 3 initial radii x 5 '
             'boxes; step length on a lattice of 16 gradients, 8 Hessians, 5 '
             'radii, 12 boxes for all solver/strategy combinations'
             + EXTRA,
    'thorough': 'all combinations, length 4',
}
RULES = [
    dict(),
    dict(mu=0.1, eta=0.9, gamma1=0.5, gamma2=3),
    dict(mu=0.4, eta=0.5, gamma1=0.1, gamma2=1.5),
    dict(mu=0.25, eta=0.75, gamma1=0.9, gamma2=10.0),
    dict(mu=0.01, eta=0.3, gamma1=0.25, gamma2=2),
]


def alpha(rule):
    mu, eta = rule.get('mu', 0.25), rule.get('eta', 0.75)
    rhos = [mu - 0.005, mu + 0.005, eta - 0.005, eta + 0.005, -1.0, 5.0, 'nan',
            'inf', 2e3, 1e7]
    return [(r, g, h) for r in rhos for g, h in (('a', 'q'), ('b', 'b'))]


def tasks(tier):
    quick = tier == 'quick'
    out = []
    kinds = ['uu', 'lb', 'u', 'Bb', 'bZ']
    combos = [('2D', 'reflect'), ('full', 'truncate'), ('scg', 'mixed'),
              ('2D', 'reflect_single')] if quick else COMBOS_FAST
    for ks, (so, st), rule, d0 in itertools.product(
        kinds, combos, RULES, [1.0, 1e-2, 50.0]
    ):
        if quick and (so, st) != ('2D', 'reflect') and d0 != 1.0:
            continue
        lb, ub, x0 = box(ks)
        opts = dict(loop.NOCONV, delta_init=d0, **rule)
        p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **opts)
        depth = 2 if quick else 3
        seqs = list(itertools.product(alpha(rule), repeat=depth))
        if not quick:
            for part in loop.chunk(seqs, 700):
                out.append([(p, part, depth)])
        else:
            out.append([(p, seqs, depth)])
    # long histories: growth, shrinking, mixed periods
    for ks, (so, st) in itertools.product(['uu', 'bZ'], combos):
        lb, ub, x0 = box(ks)
        p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **loop.NOCONV)
        al = alpha({})
        out.append(
            [(p, [tuple([a, b] * 10) for a in al[::2] for b in al], 20)]
        )
    # radii from 1e-14 to 1e40
    for so, st in combos:
        for g2 in (10.0, 1.5):
            p = Prob(*box('uu'), so, st, init=(1.0, 'a', '0'), gamma2=g2,
                     **loop.NOCONV)
            out.append([(p, [(a,) * 40 + (b,) for a in
                             [(1.0, 'a', '0'), (2.0, 'd', 'n')]
                             for b in [(-1.0, 'b', 'p'), (0.5, 'b', 'p')]],
                         41)])
        for d0 in (1e-12, 1e-9, 1e6, 1e12, 1e20):
            for ks in ('uu', 'bZ'):
                p = Prob(*box(ks), so, st, init=(1.0, 'a', 'p'),
                         delta_init=d0, **loop.NOCONV)
                out.append([(p, list(itertools.product(
                    alpha({})[::3], repeat=2)), 2)])
    # step length on the lattice
    Gs = [s for s in 'abcdefhst']
    Hs = ['I', 'p', 'i', 'n', '0', 'b', 'q', 'r']
    for ks in (['uu', 'uL', 'LU', 'bb', 'BZ', 'wL', 'b', 'LLU', 'uub', 'bBZ']
               if quick else ['uu', 'uL', 'LU', 'bb', 'BZ', 'wL', 'b', 'L',
                              'LLU', 'uub', 'bBZ', 'LUZ', 'uuu', 'bbb']):
        for (so, st) in COMBOS:
            if st == 'refine' and quick and ks not in ('LU', 'bb'):
                continue
            out.append(('len', ks, so, st, Gs, Hs,
                        [1e-3, 0.1, 1.0, 30.0] if st != 'refine'
                        else [1e-3, 0.3]))
    out.append('reset')
    return out + extra(quick)


def lengths(task, out):
    _, ks, so, st, Gs, Hs, Ds = task
    lb, ub, x0 = box(ks)
    if st == 'refine':
        Gs, Hs = Gs[:3], Hs[:4]
    for g, h, d0 in itertools.product(Gs, Hs, Ds):
        p = Prob(lb, ub, x0, so, st, init=(0.0, g, h), delta_init=d0,
                 **loop.NOCONV)
        loop.explore(PID, p, [((1.0, 'a', 'p'),)], out, 1)
        out.add('configurations')


def reset(out):
    """every run starts at the configured radius"""
    for d0 in (0.3, 1.0, 7.0):
        for first in itertools.product([1.0, -1.0, 'nan'], repeat=3):
            p = Prob([-INF] * 2, [INF] * 2, [0.5, 0.5], delta_init=d0,
                     **loop.NOCONV)
            from ..env import default_opt
            o = default_opt(p, 3)
            acts = [(r, 'a', 'q') for r in first]
            for _ in range(2):
                tr = run(p, acts, maxiter=3, opt_holder=o)
                out.add('traces_validated_against_impl')
                if tr.snaps[1].delta != d0:
                    out.violation(
                        f'run starts with radius {tr.snaps[1].delta!r} '
                        f'instead of {d0}',
                        {'prob': p.desc(), 'acts': acts, 'maxiter': 3,
                         'twice': True})


def work(task):
    if task == 'reset':
        out = engine.Out()
        reset(out)
        return out
    if isinstance(task, tuple) and task[0] == 'len':
        out = engine.Out()
        lengths(task, out)
        return out
    return loop.work_loop(PID, task)


def replay(case, out):
    if case.get('twice'):
        return reset(out)
    loop.replay_loop(PID, case, out)


