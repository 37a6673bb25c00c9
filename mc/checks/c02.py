"""C02: trial points are adopted iff the objective really decreases."""

import itertools

from .. import loop
from ..core import COMBOS_FAST
from ..env import scaled
from ..spaces import EXTRA, extra, pairs, problems

PID = 'C02'
RHOS = [1.0, 1e-3, 'eq', -1e-3, -2.0, 'nan', 10.0, 'low', 1e4, 1e8,
        '=1e200', '=-1e200']
BOUNDS = {
    'quick': '8 boxes (n=1,2), all solver/step-back combinations without '
             'refinement, every action sequence of length 2 over 8 ratios x '
             '3 derivative pairs; length 4 over 6 actions for 4 boxes; '
             'objectives scaled by 1e-120, 1e-20, 1e-9, 1e12, 1e120 '
             '(length 3 over 6 actions); ratios 1e4, 1e8, values 1e200 and '
             '-1e200 (length 3 over 11 actions)'
             + EXTRA,
    'thorough': 'all 36 pairs and n=3, every sequence of length 3 over 24 '
                'actions',
}


def tasks(tier):
    quick = tier == 'quick'
    alpha = [(r, g, h) for r in RHOS[:8] for g, h in
             (('a', 'p'), ('b', 'i'), ('h', 'n'))]
    kinds = ['uu', 'lb', 'BL', 'ZU', 'u', 'B', 'bb', 'l'] if quick else (
        pairs('ulLbBZ', 2) + ['u', 'b', 'B', 'ubZ', 'BLU'])
    inits = [(1.0, 'a', 'p'), (-3.0, 'b', 'i')]
    depth = 2 if quick else 3
    seqs = list(itertools.product(alpha, repeat=depth))
    small = [(1.0, 'a', 'p'), ('low', 'h', 'i'), (-1e-3, 'b', 'p'),
             (1e-3, 'e', 'n'), ('eq', 'b', 'b')]
    deep = list(itertools.product(small, repeat=4 if quick else 6))
    out = []
    for p in problems(kinds, COMBOS_FAST, inits, [loop.NOCONV]):
        s = seqs[::2] if quick and p.init[1] == 'b' else seqs
        for part in loop.chunk(s, 500):
            out.append([(p, part, depth)])
    for p in problems(['uu', 'bB'], [('2D', 'reflect'), ('full', 'mixed')],
                      inits[:1], [loop.NOCONV]):
        for part in loop.chunk(deep, 200):
            out.append([(p, part, len(part[0]))])
    # far larger decreases than predicted, huge (finite) values
    big = [(r, g, h) for r in RHOS[8:] for g, h in (('a', 'p'), ('d', 'q'))]
    mid = [(1.0, 'a', 'p'), (-1e-3, 'b', 'p'), ('eq', 'b', 'b')]
    seqs = [s for s in itertools.product(big + mid, repeat=3)
            if any(a in big for a in s)]
    for p in problems(['uu', 'bB', 'l'] if quick else kinds, COMBOS_FAST,
                      inits[:1], [loop.NOCONV]):
        s = seqs[::2] if quick else seqs
        out += [[(p, part, 3)] for part in loop.chunk(s, 500)]
    # objectives of tiny and huge scale
    for c in (1e-120, 1e-20, 1e-9, 1e12, 1e120):
        (g1, g2, g3), (h1, h2, h3) = (scaled('abe', c), scaled('pin', c))
        al = [(1.0, g1, h1), ('low', g3, h1), (-1e-3, g2, h2),
              (1e-3, g3, h3), ('eq', g2, h1), ('nan', g1, h2)]
        seqs = list(itertools.product(al, repeat=3 if quick else 4))
        for p in problems(['uu', 'bB', 'l', 'ZU'], COMBOS_FAST[::2] if quick
                          else COMBOS_FAST, [(c, g1, h1)], [loop.NOCONV]):
            out.append([(p, seqs, len(seqs[0]))])
    return out + extra(quick)


def work(task):
    return loop.work_loop(PID, task)


def replay(case, out):
    loop.replay_loop(PID, case, out)
