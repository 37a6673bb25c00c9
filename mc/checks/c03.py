"""C03: the best evaluated point is tracked, accepted or not."""

import itertools

from .. import engine, loop
from ..core import COMBOS_FAST
from ..env import _act, default_opt, run, undesc
from ..oracles import check
from ..spaces import EXTRA, extra, pairs, problems

PID = 'C03'
BOUNDS = {
    'quick': 'every action sequence of length 3 over 8 actions (rejected but '
             'lower, lower, equal, higher, non-finite), 6 boxes, 4 '
             'solver/step-back combinations; length 6 over 3 actions; second runs of '
             'the same optimizer with higher, equal and lower values'
             + EXTRA,
    'thorough': 'length 4 over 10 actions, all combinations',
}


def tasks(tier):
    quick = tier == 'quick'
    alpha = [(1.0, 'a', 'p'), ('low', 'h', 'p'), ('low', 'd', 'i'),
             ('eq', 'b', 'p'), (-1.0, 'b', 'i'), ('nan', 'a', 'p'),
             ('-inf', 'b', 'p'), (1e-3, 'e', 'n')]
    if not quick:
        alpha += [('lowish', 'h', 'n'), (10.0, 'f', 'b')]
    kinds = ['bb', 'lB', 'uL', 'b', 'Z', 'UU']
    combos = COMBOS_FAST[::3] if quick else COMBOS_FAST
    inits = [(1.0, 'a', 'p'), (-1.0, 'h', 'i')]
    depth = 3 if quick else 4
    seqs = list(itertools.product(alpha, repeat=depth))
    deep = list(itertools.product([alpha[0], alpha[1], alpha[4]], repeat=6))
    out = []
    for i, p in enumerate(
        problems(kinds, combos, inits, [loop.NOCONV])
    ):
        for part in loop.chunk(seqs, 300):
            out.append([(p, part, depth)])
    for p in problems(['bb', 'lB'], [('2D', 'reflect')], inits,
                      [loop.NOCONV]):
        for part in loop.chunk(deep, 250):
            out.append([(p, part, 6)])
    # second run of the same optimizer
    for p in problems(['bb', 'uL', 'b'] if quick else kinds,
                      combos, inits[:1], [loop.NOCONV]):
        out.append(('again', p, alpha, 1 if quick else 2))
    return out + extra(quick, bad=[('low', 'h', 'p'), ('-inf', 'b', 'p'),
                                   ('eq', 'd', 'q')])


SECOND = [(1e3, 'a', 'p'), (1.0, 'a', 'p'), (-1e3, 'b', 'i')]


def again(p, first, second, init, out):
    o = default_opt(p, len(first))
    run(p, first, maxiter=len(first), opt_holder=o)
    p.init = init
    try:
        tr = run(p, second, maxiter=len(first), opt_holder=o)
    finally:
        p.init = (1.0, 'a', 'p')
    out.add('states')
    out.add('traces_validated_against_impl')
    for lab, msg in check(p, tr, len(first), out, only=(PID,)):
        if lab == PID:
            out.violation(
                f'second run: {msg} [{p.solver}/{p.strat}]',
                {'prob': p.desc(), 'first': first, 'second': second,
                 'init': init})


def work(task):
    if task[0] == 'again':
        out = engine.Out()
        _, p, alpha, d = task
        for f in itertools.product(alpha, repeat=d):
            for s in itertools.product(alpha, repeat=2):
                for init in SECOND:
                    again(p, f + f, s, init, out)
                    if len(out.viol) > 2:
                        return out
        return out
    return loop.work_loop(PID, task)


def replay(case, out):
    if 'first' in case:
        p = undesc(case['prob'])
        return again(p, *[[_act(a) for a in case[k]] for k in
                          ('first', 'second')], _act(case['init']), out)
    loop.replay_loop(PID, case, out)
