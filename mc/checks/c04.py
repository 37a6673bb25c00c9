"""C04: returned quantities belong together; nothing the objective does to
exchanged arrays affects the run."""

import itertools

import numpy as np

from .. import engine, loop, lsq
from ..core import COMBOS_FAST
from ..env import Prob, run, undesc, _act
from ..spaces import EXTRA, box, extra, pairs, problems
from ..tracecmp import diff

PID = 'C04'
BOUNDS = {
    'quick': 'every action sequence of length 3 over 8 actions, 8 boxes; '
             'array-reuse adversaries (4 patterns) on every sequence of '
             'length 2-3 over 6 actions for exact Hessians, 6 secant '
             'approximations, 2 hybrids and residual mode with 5 schemes'
             + EXTRA,
    'thorough': 'length 4, all combinations',
}
ALPHA = [(1.0, 'a', 'p'), ('low', 'h', 'p'), (1e-3, 'd', 'i'),
         ('eq', 'b', 'b'), (-1.0, 'b', 'i'), ('nan', 'a', 'p'),
         (0.3, 'e', 'n'), (2.0, 's', 'q')]
UPD = [None, 'BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden:phi=0.5',
       'HybridFixed:switch_iteration=1', 'HybridFraction']
RUPD = [None, 'SSM', 'TSSM', 'GNSBFGS', 'FX']
PATTERNS = ['reuse', 'poison-old', 'poison-x', 'all']


def alias(pattern):
    """an objective that reuses/overwrites exchanged arrays"""
    buf = {}
    old = []

    def f(k, x, ans):
        if pattern in ('poison-old', 'all'):
            for a in old:
                a[...] = np.nan
            old.clear()
        if pattern in ('reuse', 'all'):
            res = []
            for i, a in enumerate(ans):
                if isinstance(a, np.ndarray):
                    b = buf.setdefault(i, np.empty_like(a))
                    b[...] = a
                    res.append(b)
                else:
                    res.append(a)
            ans = tuple(res)
        elif pattern == 'poison-old':
            ans = tuple(
                a.copy() if isinstance(a, np.ndarray) else a for a in ans
            )
            old.extend(a for a in ans if isinstance(a, np.ndarray))
            old.append(x)
        if pattern in ('poison-x', 'all'):
            x[...] = np.nan
        return ans

    return f


def tasks(tier):
    quick = tier == 'quick'
    out = []
    kinds = ['uu', 'bb', 'lB', 'ZU', 'b', 'Z', 'BZ', 'uL']
    if not quick:
        kinds += pairs('lLb', 2) + ['BLU']
    combos = COMBOS_FAST[::4] if quick else COMBOS_FAST
    depth = 3 if quick else 4
    seqs = list(itertools.product(ALPHA, repeat=depth))
    for p in problems(kinds, combos, [(1.0, 'a', 'p')], [loop.NOCONV]):
        for part in loop.chunk(seqs, 300):
            out.append([(p, part, depth)])
    # regular termination criteria active
    for p in problems(kinds[:4], combos[:2], [(1.0, 'a', 'p'),
                                              (1e-3, 's', 'b')], [{}]):
        out.append([(p, seqs[::4], depth)])
    small = ALPHA[:2] + [ALPHA[4], ALPHA[6], ALPHA[3], ALPHA[5]]
    for ks in (['bb', 'uZ'] if quick else kinds):
        for u in UPD:
            out.append(('alias', ks, u, small,
                        2 if quick or u is None else 3))
        for u in RUPD:
            out.append(('ralias', ks, u, 2 if quick else 3))
    return out + extra(quick)


def alias_case(p, acts, pat, out):
    ref = run(p, acts, maxiter=len(acts))
    tr = run(p, acts, maxiter=len(acts), alias=alias(pat))
    d = diff(ref, tr)
    out.add('traces_validated_against_impl', 2)
    out.add('alias_pairs')
    out.add('transitions', len(acts))
    if d:
        out.violation(f'array pattern {pat} changes the run: {d}',
                      {'prob': p.desc(), 'acts': acts, 'alias': pat})


def ralias_case(p, acts, pat, out):
    ref = lsq.rrun(p, acts)
    tr = lsq.rrun(p, acts, alias=alias(pat))
    d = diff(ref, tr)
    out.add('traces_validated_against_impl', 2)
    out.add('alias_pairs')
    out.add('transitions', len(acts))
    if d:
        out.violation(f'array pattern {pat} changes the run: {d}',
                      {'rprob': p.desc(), 'acts': acts, 'alias': pat})


def work(task):
    if isinstance(task, list):
        return loop.work_loop(PID, task)
    out = engine.Out()
    lb, ub, x0 = box(task[1])
    if task[0] == 'alias':
        _, ks, u, small, depth = task
        p = Prob(lb, ub, x0, init=(1.0, 'a', 'p'), update=u, **loop.NOCONV)
        acts = [a[:3] for a in small]
        for seq in itertools.product(acts, repeat=depth):
            for pat in PATTERNS:
                alias_case(p, seq, pat, out)
        out.add('states', len(small) ** depth)
    else:
        _, ks, u, depth = task
        p = lsq.RProb(lb, ub, x0, 3, u, **loop.NOCONV)
        al = [(1, 1), (0, 2), (5, 0), (4, 3)]
        for seq in itertools.product(al, repeat=depth):
            for pat in PATTERNS:
                ralias_case(p, seq, pat, out)
        out.add('states', len(al) ** depth)
    return out


def replay(case, out):
    if 'rprob' in case:
        return ralias_case(lsq.rundesc(case['rprob']), case['acts'],
                           case['alias'], out)
    if 'alias' in case:
        return alias_case(undesc(case['prob']),
                          [_act(a) for a in case['acts']], case['alias'], out)
    loop.replay_loop(PID, case, out)
