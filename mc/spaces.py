"""Shared alphabets of configurations."""

import itertools

from . import loop
from .core import COMBOS, COMBOS_FAST, INF
from .env import Prob

# bounds of one variable and its start value
KINDS = {
    'u': (-INF, INF, 0.5),
    'l': (0.0, INF, 0.5),
    'L': (0.0, INF, 1e-3),
    'U': (-INF, 1.0, 0.999),
    'b': (-1.0, 1.0, 0.25),
    'B': (0.0, 1.0, 1.0),
    'Z': (0.0, 1.0, 0.0),
    'w': (-1e3, 1e3, 999.5),
}


def box(kinds):
    lb = [KINDS[k][0] for k in kinds]
    ub = [KINDS[k][1] for k in kinds]
    x0 = [KINDS[k][2] for k in kinds]
    return lb, ub, x0


def problems(kinds, combos, inits, optsets=({},), update=None, hess0=None):
    for ks in kinds:
        lb, ub, x0 = box(ks)
        for (so, st), init, opts in itertools.product(combos, inits, optsets):
            yield Prob(lb, ub, x0, so, st, init=init, update=update,
                       hess0=hess0, **opts)


def pairs(alphabet, n):
    return [''.join(p) for p in itertools.product(alphabet, repeat=n)]


def extra(quick, bad=False, opts=None, combos=None):
    """long histories (all of period two) and more variables; tasks of
    loop.work_loop"""
    al = [(1.0, 'a', 'p'), (0.5, 'b', 'i'), (-1.0, 'e', 'p'),
          (0.1, 'f', 'b'), ('nan', 'a', 'p'), (3e4, 'd', 'q')]
    if bad:
        al[3:] = bad
    o = dict(loop.NOCONV) if opts is None else opts
    combos = combos or [('2D', 'reflect'), ('full', 'mixed'),
                        ('scg', 'truncate')]
    out = []
    L = 60 if quick else 240
    seqs = [(a, b) * (L // 2) for a in al for b in al]
    for ks, upd in (('uu', None), ('bZ', None), ('uLb', 'BFGS'),
                    ('u', None), ('bbu', 'HybridFraction')):
        for so, st in combos[:2] if upd else combos:
            lb, ub, x0 = box(ks)
            p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), update=upd,
                     **o)
            out += [[(p, part, L)] for part in loop.chunk(seqs, 9)]
    seqs = list(itertools.product(al, repeat=3 if quick else 4))
    for ks in ('uuuuuu', 'lbUuZBwL', 'bbbbbbbbbbbb'):
        for so, st in COMBOS_FAST if not quick else COMBOS_FAST[::2]:
            lb, ub, x0 = box(ks)
            p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **o)
            out += [[(p, part, len(part[0]))] for part in
                    loop.chunk(seqs[::2] if quick else seqs, 60)]
    # 70 variables, those closest to their bounds at the end or the start
    few = seqs[5::31] if quick else seqs[::13]
    for ks in ('u' * 20 + 'bw' * 20 + 'lbUBZ' * 2,
               'LUc'.replace('c', 'B') + 'wbl' * 20 + 'u' * 7):
        for so, st in combos:
            lb, ub, x0 = box(ks)
            p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **o)
            out.append([(p, few, len(few[0]))])
    return out + endings(quick, o, combos)


def endings(quick, o, combos):
    """runs that end because every step is rejected from some point on"""
    pre = [(1.0, 'a', 'p'), ('low', 'h', 'p'), (-1.0, 'b', 'i'),
           (0.1, 'e', 'b'), ('nan', 'a', 'p')]
    rej = [('nan', 'a', 'p'), (-1.0, 'b', 'i'), ('low', 'h', 'p')]
    L = 34
    out = []
    seqs = [p + (r,) * L for p in itertools.product(
        pre, repeat=2 if quick else 3) for r in rej]
    for ks in ('lB', 'bb', 'U'):
        for so, st in combos[:2]:
            lb, ub, x0 = box(ks)
            p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **o)
            out += [[(p, part, L + 6)] for part in loop.chunk(seqs, 25)]
    return out


EXTRA = ('; histories of period two over 6 actions of length 60 (5 '
         'problems, 3 solvers); 6, 8 and 12 variables (every second '
         'sequence of length 3 over 6 actions), 70 variables (7 sequences); '
         'runs that end by '
         'rejections after 2 answers')

__all__ = ['KINDS', 'box', 'problems', 'pairs', 'extra', 'EXTRA', 'COMBOS', 'COMBOS_FAST']
