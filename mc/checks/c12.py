"""C12: non-finite answers at every position of every history."""

import itertools

import numpy as np

from .. import engine, loop, lsq
from ..core import COMBOS, COMBOS_FAST, ExitFlag
from ..env import Prob, _act, needs_hess, run
from ..oracles import same
from ..spaces import EXTRA, box, extra, problems

PID = 'C12'
BOUNDS = {
    'quick': 'every sequence of length 3 over 11 actions (7 fault kinds), 4 '
             'boxes, 3 solvers; all fault kinds x positions <=3 for 6 secant, '
             '2 hybrid and 5 residual schemes; permanent faults; every position '
             'of a single non-finite entry of gradient, Hessian, residuals '
             'and their Jacobian, n=1..3'
             + EXTRA,
    'thorough': 'length 4, all combinations',
}
FAULTS = [('nan', 'a', 'p'), ('inf', 'b', 'p'), ('-inf', 'a', 'i'),
          (1.0, 'nan', 'p'), (1.0, 'inf', 'p'), (1.0, 'a', 'nan'),
          (1.0, 'a', 'inf'), (-1.0, 'nan', 'p'), ('nan', 'nan', 'nan'),
          ('inf', 'a', 'nan')]
OK = [(1.0, 'b', 'p'), (0.1, 'a', 'i'), (-1.0, 'a', 'p')]
UPD = ['BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden:phi=0.5',
       'HybridFixed:switch_iteration=1', 'HybridFraction']
RUPD = [None, 'SSM', 'TSSM', 'GNSBFGS', 'FX']


def tasks(tier):
    quick = tier == 'quick'
    out = []
    kinds = ['uu', 'bZ', 'u', 'LB'] + ([] if quick else ['bb', 'BLU', 'Z'])
    combos = [('2D', 'reflect'), ('full', 'mixed'), ('scg', 'truncate')]
    if not quick:
        combos = COMBOS_FAST
    depth = 3 if quick else 4
    alpha = FAULTS + OK
    # a fault kind ends the run if it is not contained: prefixes before it
    # consist of contained actions
    seqs = [
        s for s in itertools.product(alpha, repeat=depth)
        if any(a in FAULTS for a in s)
        and all(
            not (np.isfinite(_num(a[0])) and ('nan' in a[1:] or 'inf' in a[1:]))
            for a in s[:-1]
        )
    ]
    inits = [(1.0, 'a', 'p'), (-2.0, 'b', 'i')]
    for p in problems(kinds, combos, inits, [loop.NOCONV]):
        out.append([(p, seqs, depth)])
    for so, st in COMBOS:
        for ks in ('bZ', 'uu'):
            lb, ub, x0 = box(ks)
            p = Prob(lb, ub, x0, so, st, init=inits[0], **loop.NOCONV)
            pers = [tuple([a] * 40) for a in FAULTS]
            pers += [(OK[0],) + tuple([a] * 40) for a in FAULTS]
            pers += [tuple([a, OK[1]] * 12) for a in FAULTS[:3]]
            if st == 'refine':
                pers = [s[:3] for s in pers]
            out.append([(p, pers, len(pers[0]))])
    out.append('initial')
    for n in (1, 2, 3):
        out.append(('pos', n))
    out.append('rpos')
    for u in UPD:
        out.append(('upd', u))
    for u in RUPD:
        out.append(('rupd', u, 2 if quick else 3))
    return out + extra(quick, bad=[('nan', 'b', 'i'), ('-inf', 'a', 'nan'),
                                   ('inf', 'e', 'p')])


def _num(r):
    return r if not isinstance(r, str) else float(r) if r in (
        'nan', 'inf', '-inf') else 0.0


def initial(out):
    lb, ub, x0 = box('bu')
    for f, g, h in itertools.product(
        [0.0, float('nan'), float('inf'), -float('inf')],
        ['a', 'nan', 'inf'], ['p', 'nan', 'inf'],
    ):
        for so, st in COMBOS:
            p = Prob(lb, ub, x0, so, st, init=(f, g, h), **loop.NOCONV)
            loop.explore(PID, p, [((1.0, 'a', 'p'),)], out, 1)


def positions(n, out):
    """one non-finite entry, at every position"""
    ent = [(1.0, f'{v}@{i}', 'p') for i in range(n) for v in ('nan', 'inf')]
    ent += [(1.0, 'a', f'{v}@{i}@{j}') for i in range(n) for j in range(n)
            for v in ('nan', 'inf', '-inf')]
    for ks in ('buZ'[:n], 'uuu'[:n]):
        lb, ub, x0 = box(ks)
        for so, st in COMBOS_FAST:
            for f in ent:
                p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'),
                         **loop.NOCONV)
                seqs = [OK[:k] + [f, OK[0]] for k in range(3)]
                seqs += [(FAULTS[0], f, OK[0]), (OK[2], f, OK[0])]
                for s in seqs:
                    loop.explore(PID, p, [tuple(s)], out, len(s))
                p = Prob(lb, ub, x0, so, st, init=f, **loop.NOCONV)
                loop.explore(PID, p, [(OK[0],)], out, 1)
            if len(out.viol) > 3:
                return


def upd_case(u, acts, out):
    lb, ub, x0 = box('bu')
    p = Prob(lb, ub, x0, update=u, init=(1.0, 'a', 'p'), **loop.NOCONV)
    judge(run(p, acts, maxiter=len(acts)), acts, ('upd', u), out,
          lambda ans: ans)


def rupd_case(u, acts, out):
    """acts: list of (r, j, fault) with fault in None or (what, value)"""
    lb, ub, x0 = box('bu')
    p = lsq.RProb(lb, ub, x0, 3, u, **loop.NOCONV)
    seq = [(3, 0, None)] + list(acts)
    o, h = lsq.rmake(p, len(acts))

    def env(k, x, snap):
        r, J = (lsq.res(seq[k][0], 3), lsq.jac(seq[k][1], 3, 2))
        if seq[k][2] is not None:
            w, v = seq[k][2]
            i = int(w[1:] or 1)
            (r if w[0] == 'r' else J.reshape(-1))[i] = v
        return r, J

    from ..core import drive

    tr = drive(o, p.x0.copy(), env, holder=h)
    judge(tr, acts, ('rupd', u), out, lsq.fgH)


def judge(tr, acts, kind, out, view):
    """verdict that does not depend on the approximation"""
    case = {'kind': list(kind), 'acts': [list(a) for a in acts]}
    out.add('traces_validated_against_impl')
    out.add('transitions', max(0, len(tr.calls) - 1))
    if tr.hang:
        out.violation('hang', case)
        return
    for k in range(1, len(tr.calls)):
        a = view(tr.calls[k][1])
        pre = tr.snaps[k]
        last = k == len(tr.calls) - 1
        post = tr.final if last else tr.snaps[k + 1]
        ffin = np.isfinite(a[0])
        dfin = all(np.isfinite(z).all() for z in a[1:])
        unchanged = same(post.x, pre.x) and post.f == pre.f and same(
            post.g, pre.g) and same(post.H, pre.H)
        best_same = same(post.xm, pre.xm) and post.fm == pre.fm
        if not ffin:
            out.add('contained_faults')
            if not (unchanged and best_same):
                out.violation(f'{kind} evaluation {k}: non-finite value '
                              f'{a[0]} changed the state', case)
                return
            if not post.delta < pre.delta:
                out.violation(f'{kind} evaluation {k}: radius not reduced',
                              case)
                return
            if last and tr.exc is not None:
                out.violation(f'{kind} evaluation {k}: {tr.exc!r}', case)
                return
        elif not dfin:
            out.add('terminal_faults')
            if not last or not isinstance(tr.exc, RuntimeError):
                out.violation(f'{kind} evaluation {k}: non-finite derivative '
                              f'not reported ({tr.exc!r})', case)
                return
            if tr.final.flag != ExitFlag.NOT_FINITE:
                out.violation(f'{kind}: flag {tr.final.flag!r}', case)
                return
            if not (unchanged and best_same):
                out.violation(f'{kind} evaluation {k}: non-finite derivative '
                              f'changed the state', case)
                return
    if tr.ret is not None:
        if not np.isfinite(tr.ret[0]) or not np.isfinite(tr.ret[2]).all() or (
            not np.isfinite(tr.ret[3]).all()
        ):
            out.violation(f'{kind}: non-finite result {tr.ret}', case)
    elif tr.exc is None or not isinstance(tr.exc, RuntimeError):
        out.violation(f'{kind}: {tr.exc!r}', case)


def work(task):
    out = engine.Out()
    if task == 'initial':
        initial(out)
    elif isinstance(task, list):
        return loop.work_loop(PID, task)
    elif task == 'rpos':
        for u in RUPD:
            for w in ['r0', 'r1', 'r2'] + [f'J{i}' for i in range(6)]:
                for v in (np.nan, np.inf, -np.inf):
                    for pre in ((), ((1, 1, None),), ((4, 3, None),)):
                        rupd_case(u, pre + ((1, 1, (w, v)), (1, 1, None)),
                                  out)
    elif task[0] == 'pos':
        positions(task[1], out)
    elif task[0] == 'upd':
        F = FAULTS
        if not needs_hess(task[1]):
            F = [f for f in F if 'nan' not in f[2:] and 'inf' not in f[2:]]
        ok = [(1.0, 'b', 'p'), (0.5, 'e', 'p'), (-1.0, 'a', 'p')]
        n = 0
        for d in (1, 2, 3, 4):
            for pre in itertools.product(ok + F[:3], repeat=d - 1):
                for f in F:
                    upd_case(task[1], pre + (f,) + (ok[0],), out)
                    n += 1
        out.add('states', n)
    else:
        ok = [(1, 1, None), (5, 0, None), (4, 3, None)]
        F = [(1, 1, (w, v)) for w in 'rJ'
             for v in (np.nan, np.inf, -np.inf)]
        n = 0
        for d in range(1, task[2] + 2):
            for pre in itertools.product(ok, repeat=d - 1):
                for f in F:
                    rupd_case(task[1], pre + (f,) + (ok[0],), out)
                    n += 1
        out.add('states', n)
    return out


def replay(case, out):
    if 'prob' in case:
        return loop.replay_loop(PID, case, out)
    k = case['kind']

    def dec(a):
        a = list(a)
        if k[0] == 'upd':
            return _act(a)
        if a[2] is not None:
            a[2] = (a[2][0], float(a[2][1]))
        return tuple(a)

    acts = [dec(a) for a in case['acts']]
    (upd_case if k[0] == 'upd' else rupd_case)(k[1], acts, out)


