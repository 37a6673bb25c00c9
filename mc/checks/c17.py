"""C17: options: invalid ones refused, valid ones effective, defaults."""

import itertools
import os
import pathlib
import shutil
import tempfile

import numpy as np

from .. import engine
from ..core import (INF, SILENT, Holder, Optimizer, Options, Quad, Snap,
                    StepBackStrategy, SubSpaceDim, clock, drive)
from ..env import Prob, default_opt, run
from ..oracles import check
from ..tracecmp import diff

PID = 'C17'
BOUNDS = {
    'quick': 'refusal: 16 options x 17 invalid values x enum/string key x '
             'alone/first/last among valid options; 19 invalid keys; '
             'acceptance and effect: all options x valid values x key forms x '
             'value forms on all pairs of 6 answers in 3 boxes against the '
             'reference semantics; omitted vs explicit documented default on '
             'threshold-straddling histories; all solver/strategy pairs in '
             'all forms',
    'thorough': 'all triples of answers, pairs of options',
}

REAL = ['maxtime', 'fatol', 'frtol', 'xtol', 'gatol', 'grtol', 'theta_max',
        'delta_init', 'mu', 'eta', 'gamma1', 'gamma2']
ALL = ['maxiter', 'subspace_solver', 'stepback_strategy',
       'history_file'] + REAL
# documented defaults (comments and docstrings of fides, README, publication)
DEFAULTS = {
    'maxiter': 1000, 'maxtime': INF, 'fatol': 1e-8, 'frtol': 1e-8, 'xtol': 0,
    'gatol': 1e-6, 'grtol': 0, 'subspace_solver': '2D',
    'stepback_strategy': 'reflect', 'theta_max': 0.95, 'delta_init': 1.0,
    'mu': 0.25, 'eta': 0.75, 'gamma1': 0.25, 'gamma2': 2,
}


class Odd:
    pass


BAD = {
    'string': 'foo', 'number string': '1', 'None': None, 'list': [1],
    'tuple': (1.0,), 'dict': {}, 'complex': 1j, 'object': Odd(),
    'array': np.array([1.0, 2.0]), 'bytes': b'2D', 'set': {1},
}
BAD_FOR = {
    'maxiter': {**BAD, 'fraction': 1.5, 'nan': np.nan,
                'enum': SubSpaceDim.TWO},
    'subspace_solver': {**BAD, 'int': 3, 'zero': 0, 'case': '2d',
                        'name': 'TWO', 'empty': '', 'space': ' 2D',
                        'wrong enum': StepBackStrategy.REFLECT,
                        'true': True, 'float': 2.0,
                        'wrong value': 'reflect'},
    'stepback_strategy': {**BAD, 'int': 3, 'zero': 0, 'case': 'Reflect',
                          'name': 'SINGLE_REFLECT', 'empty': '',
                          'wrong enum': SubSpaceDim.FULL, 'true': True,
                          'float': 2.0, 'wrong value': 'full',
                          'prefix': 'refl'},
    'history_file': {'int': 3, 'float': 1.5, 'list': ['a'], 'bytes': b'a',
                     'object': Odd(), 'tuple': ('a',)},
}
for _o in REAL:
    BAD_FOR[_o] = {**BAD, 'enum': SubSpaceDim.TWO}
BADKEYS = ['foo', 'MAXITER', 'Maxiter', 'maxiter ', '', 0, 1, None, 'MU',
           ('maxiter',), 'subspace_dim', 'stepback_strat', 'tol', 'ftol',
           'maxfun', 'Options.MAXITER', 2.5, SubSpaceDim.TWO, b'maxiter']
VALID = {'mu': 0.3, 'maxiter': 7, 'subspace_solver': 'full'}
GOOD = {
    'maxiter': [1, 3.0, np.int64(2), np.float64(4.0), 2],
    'maxtime': [100.0, 1e9, 5],
    'fatol': [1e-3, 0.0, 0, np.float64(0.5), np.float32(0.5)],
    'frtol': [1e-2, 0, 0.0], 'xtol': [0.5, 1e-2, 0], 'gatol': [3.0, 0, 1e-1],
    'grtol': [1.0, 0, 5], 'theta_max': [0.5, 0.99, np.float32(0.75)],
    'delta_init': [0.1, 3, 10.0, np.float64(1e-3)],
    'mu': [0.1, 0.5, 0], 'eta': [0.5, 0.95, 1], 'gamma1': [0.1, 0.5],
    'gamma2': [1.5, 4, 3.0],
    'subspace_solver': ['2D', 'full', 'scg'],
    'stepback_strategy': ['reflect', 'reflect_single', 'truncate', 'mixed',
                          'refine'],
}


def construct(options):
    lb, ub = np.array([-1.0, 0.0]), np.array([1.0, INF])
    h = Holder()
    return Optimizer(h, ub=ub, lb=lb, verbose=SILENT, options=options), h


def keyform(name, form):
    return Options(name) if form == 'enum' else name


def valform(name, v, form):
    if form == 'enum' and name == 'subspace_solver':
        return SubSpaceDim(v)
    if form == 'enum' and name == 'stepback_strategy':
        return StepBackStrategy(v)
    return v


# ---------------------------------------------------------------- refusal
def refusal(name, bad, kf, place, out):
    v = BAD_FOR[name][bad]
    opts = {}
    others = {k: x for k, x in VALID.items() if k != name}
    if place == 'last':
        opts.update(others)
    opts[keyform(name, kf)] = v
    if place == 'first':
        opts.update(others)
    out.add('states')
    out.add('transitions')
    try:
        construct(opts)
    except Exception:  # noqa: BLE001
        out.add('refused')
        return
    out.violation(f'invalid value {v!r} of option {name} ({kf} key, {place}) '
                  f'was accepted', {'refusal': [name, bad, kf, place]})


def refusal_key(i, place, out):
    opts = {}
    if place == 'last':
        opts.update(VALID)
    opts[BADKEYS[i]] = 1
    if place == 'first':
        opts.update(VALID)
    out.add('states')
    out.add('transitions')
    try:
        construct(opts)
    except Exception:  # noqa: BLE001
        out.add('refused')
        return
    out.violation(f'unknown option {BADKEYS[i]!r} ({place}) was accepted',
                  {'badkey': [i, place]})


def pair(so, st, kf, vf, order, out):
    opts = {}
    items = [('subspace_solver', so), ('stepback_strategy', st)]
    for n, v in (items if order else items[::-1]):
        if v is not None:
            opts[keyform(n, kf)] = valform(n, v, vf)
    out.add('states')
    out.add('transitions')
    exc = None
    try:
        construct(opts)
    except Exception as e:  # noqa: BLE001
        exc = e
    want = so == 'scg' and st == 'refine'
    if (exc is not None) != want:
        out.violation(
            f'{so}/{st} ({kf},{vf}): '
            + (f'refused: {exc!r}' if exc else 'not refused'),
            {'pair': [so, st, kf, vf, order]})


# ----------------------------------------------------------------- effect
ACT = [(1.0, 'b', 'p'), (0.6, 'e', 'i'), (0.05, 'a', 'q'), (-1.0, 'b', 'p'),
       (0.3, 't', 'p'), ('nan', 'a', 'p')]


def same_run(name, vi, kf, vf, ks, acts, out):
    """option given in some form has the documented effect"""
    from ..spaces import box

    v = GOOD[name][vi]
    lb, ub, x0 = box(ks)
    so = v if name == 'subspace_solver' else '2D'
    st = v if name == 'stepback_strategy' else 'reflect'
    extra = {} if name in ('subspace_solver', 'stepback_strategy') else {
        name: v}
    p = Prob(lb, ub, x0, so, st, **extra)
    m = len(acts)
    opts = {keyform(name, kf): valform(name, v, vf)}
    if name != 'maxiter':
        opts[keyform('maxiter', kf)] = m
    else:
        m = v
    case = {'effect': [name, vi, kf, vf, ks, acts]}
    tag = f'{name}={v!r} ({kf} key, {vf} value)'
    h = Holder()
    try:
        o = Optimizer(h, ub=p.ub.copy(), lb=p.lb.copy(), verbose=SILENT,
                      options=opts)
    except Exception as e:  # noqa: BLE001
        out.violation(f'{tag}: refused: {e!r}', case)
        return
    tr = run(p, acts, maxiter=m, opt_holder=(o, h))
    out.add('states', len(acts))
    out.add('traces_validated_against_impl')
    pp = Prob(lb, ub, x0, so, st, **{**DEFCHK, **extra})
    bad = list(check(pp, tr, int(m), out))
    for lab, msg in bad[:2]:
        out.violation(f'{tag}: {msg}', case)
    if bad:
        return
    ref = run(p, acts, maxiter=m)  # enum keys and values
    d = diff(ref, tr)
    if d:
        out.violation(f'{tag}: differs from enum form: {d}', case)
    if not out.samples:
        out.sample({**case, 'points': [c[0] for c in tr.calls]})


DEFCHK = {k: v for k, v in DEFAULTS.items()
          if k not in ('subspace_solver', 'stepback_strategy', 'maxiter')}


# ---------------------------------------------------------------- defaults
def quadenv(seq, lb, ub, tick=0.0, f0=0.0):
    """seq of (rho, g, h): gradient vector, Hessian h*I at every point"""

    def env(k, x, snap):
        clock.now += tick
        rho, g, h = seq[min(k, len(seq) - 1)]
        g = np.array(g)
        H = h * np.eye(len(g)) if np.isscalar(h) else np.array(h)
        if k == 0:
            return f0, g, H
        q = Quad(snap.x, snap.g, snap.H, lb, ub)
        ss, _ = q.scaled(x)
        aug = 0.5 * np.sum(ss * q.dv * np.abs(g) * ss)
        return snap.f - aug - rho * -q.q(ss), g, H

    return env


def g2(m):
    return [0.6 * m, 0.8 * m]


def mags(dfs):
    return [np.sqrt(2 * d) for d in dfs]


def histories():
    """name -> (seq, f0, x0, lb, ub, tick): straddle the default"""
    n = [-INF, -INF]
    u = [INF, INF]
    H = {}
    near = [3, 1.6, 1.3, 1.1, 1.03, 0.97, 0.9, 0.8, 0.6, 0.3]
    H['fatol'] = [([(1.0, g2(m), 1.0) for m in
                    mags([1e-8 * c for c in near])], 0.0, [0, 0], n, u, 0)]
    H['frtol'] = [([(1.0, g2(m), 1.0) for m in
                    mags([100e-8 * c + 1e-8 for c in near])], 100.0, [0, 0],
                   n, u, 0)]
    H['xtol'] = [([(1.0, g2(10.0 ** (3 + k)), 10.0 ** (3 + 2 * k))
                   for k in range(11)], 0.0, [0, 0], n, u, 0)]
    H['gatol'] = [([(0.5, g2(1e-6 * c), 0.0) for c in near], 0.0, [0, 0],
                   n, u, 0)]
    H['grtol'] = [([(0.2, g2(10.0 ** -k), 1e-3) for k in range(-2, 6)], 1e9,
                   [0, 0], n, u, 0)]
    H['maxiter'] = [([(0.5, g2(1.0), 0.0)], 0.0, [0, 0], n, u, 0)]
    H['maxtime'] = [([(0.5, g2(1.0), 0.0)], 0.0, [0, 0], n, u, 1e15)]
    H['delta_init'] = [([(0.5, g2(1e3), 0.0)] * 3, 0.0, [0, 0], n, u, 0)]
    H['mu'] = [([(1.0, g2(10), 0.0)] + [(r, g2(10), 0.0) for r in rs], 0.0,
                [0, 0], n, u, 0)
               for rs in ([0.2501, 0.2499], [0.3, 0.26], [0.25, 0.25],
                          [0.2, 0.24])]
    H['eta'] = [([(1.0, g2(10), 0.0)] + [(r, g2(10), 0.0) for r in rs], 0.0,
                 [0, 0], n, u, 0)
                for rs in ([0.7499, 0.7501], [0.7, 0.76], [0.74, 0.74],
                           [0.9, 0.8])]
    H['gamma1'] = [([(1.0, g2(10), 0.0), (-1.0, g2(1), 0.0),
                     (0.2, g2(10), 0.0), (0.5, g2(10), 0.0)], 0.0, [0, 0], n,
                    u, 0)]
    H['gamma2'] = [([(1.0, g2(10), 0.0)] * 4, 0.0, [0, 0], n, u, 0)]
    lb, ub = [-1.0, 0.0, -1.0], [1.0, 1.0, INF]
    bnd = []
    for x0 in ([0.9, 0.2, 0.5], [0.0, 0.5, 0.0], [-0.9, 0.1, -0.9],
               [0.9, 0.9, -0.8], [-0.5, 0.99, 0.0], [0.99, 0.97, -0.9]):
        for g in ([-3.0, 1.0, 2.0], [-1.0, -5.0, 3.0], [2.0, -2.0, -7.0],
                  [-4.0, -1.0, 5.0]):
            for h in (0.5, 4.0, [[1.0, -0.9, -0.9], [-0.9, 1.0, 0.8],
                                 [-0.9, 0.8, 1.0]],
                      [[1.0, 0.9, -0.2], [0.9, 1.0, 0.2], [-0.2, 0.2, 0.3]]):
                bnd.append(([(0.9, g, h), (0.9, g[::-1], 1.0),
                             (0.5, [-z for z in g], h)], 0.0, x0, lb, ub, 0))
    one, uno = [1.0] * 3, [-1.0] * 3
    for x0, g, h, d in (
        ([0.18, 0.45, -0.37], [-0.8, -2.3, -2.5],
         [[3.6, -0.1, -0.3], [-0.1, -2.0, -2.6], [-0.3, -2.6, 1.6]], 3.0),
        ([-0.72, 0.2, -0.23], [3.2, 3.7, 0.4],
         [[-1.8, 0.0, 1.4], [0.0, 0.4, -1.3], [1.4, -1.3, -2.0]], 3.0),
        ([0.65, 0.25, 0.73], [-1.8, 2.4, -2.5],
         [[3.6, 2.5, -2.2], [2.5, 1.8, -0.9], [-2.2, -0.9, -3.8]], 1.0),
        ([-0.81, -0.52, 0.67], [0.2, 0.1, 1.2],
         [[0.4, -0.8, 2.2], [-0.8, -1.0, -1.0], [2.2, -1.0, -1.0]], 3.0),
    ):
        bnd.append(([(0.9, g, h), (0.9, g, h)], 0.0, x0, uno, one, 0,
                    {'delta_init': d}))
    H['theta_max'] = H['subspace_solver'] = H['stepback_strategy'] = bnd
    return H


# a value of every option that must give a different run on the history
OTHER = {
    'fatol': [1.2e-8, 0.85e-8], 'frtol': [1.2e-8, 0.85e-8], 'xtol': [1e-6],
    'gatol': [1.2e-6, 0.85e-6], 'grtol': [1e-10], 'maxiter': [999, 1001],
    'maxtime': [1e15], 'delta_init': [0.99, 1.01], 'mu': [0.24, 0.26],
    'eta': [0.74, 0.76], 'gamma1': [0.2], 'gamma2': [1.9, 2.1],
    'theta_max': [0.94, 0.96], 'subspace_solver': ['full', 'scg'],
    'stepback_strategy': ['reflect_single', 'truncate', 'mixed', 'refine'],
}


def drun(hist, opts, m):
    seq, f0, x0, lb, ub, tick = hist[:6]
    opts = {**(hist[6] if len(hist) > 6 else {}), **opts}
    lb, ub = np.array(lb), np.array(ub)
    h = Holder()
    o = Optimizer(h, ub=ub, lb=lb, verbose=SILENT, options={
        **opts, **({Options.MAXITER: m} if m else {})})
    clock.active, clock.now = True, 0.0
    try:
        return drive(o, np.array(x0, float), quadenv(seq, lb, ub, tick, f0),
                     holder=h)
    finally:
        clock.active = False


def default(name, out):
    differs = {v: 0 for v in OTHER[name]}
    for i, hist in enumerate(histories()[name]):
        m = None if name == 'maxiter' else max(3, len(hist[0]) - 1)
        ref = drun(hist, {}, m)
        out.add('states')
        for form in ('enum', 'string'):
            tr = drun(hist, {keyform(name, form): valform(
                name, DEFAULTS[name], form)}, m)
            out.add('traces_validated_against_impl', 2)
            out.add('transitions', len(tr.calls))
            d = diff(ref, tr)
            if d:
                out.violation(
                    f'omitted option {name} differs from its documented '
                    f'default {DEFAULTS[name]!r}: {d}', {'default': name})
                return
        for v in differs:
            if diff(ref, drun(hist, {name: v}, m)):
                differs[v] += 1
    for v, c in differs.items():
        if c == 0:
            out.violation(
                f'option {name}={v!r} has no effect where it should (or the '
                f'default is not {DEFAULTS[name]!r})', {'default': name})
        else:
            out.add('sensitive')


def history(form, kind, out):
    tmp = tempfile.mkdtemp(prefix='c17')
    try:
        path = os.path.join(tmp, 'h.h5')
        v = pathlib.Path(path) if kind == 'path' else path
        h = Holder()
        o = Optimizer(h, ub=np.array([1.0]), lb=np.array([-1.0]),
                      verbose=SILENT,
                      options={keyform('history_file', form): v,
                               keyform('maxiter', form): 2})
        tr = drive(o, np.array([0.5]), lambda k, x, s: (
            float(x @ x), 2 * x, 2 * np.eye(1)), holder=h, start_id='s')
        out.add('states')
        out.add('transitions')
        if tr.exc is not None or not os.path.exists(path):
            out.violation(f'history_file given as {kind}/{form}: {tr.exc!r}',
                          {'hist': [form, kind]})
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------- tasks
def tasks(tier):
    out = [('ref', n) for n in BAD_FOR] + [('keys',), ('pairs',), ('hist',)]
    for n in OTHER:
        out.append(('def', n))
    seqs = list(itertools.product(ACT, repeat=2 if tier == 'quick' else 3))
    for n in GOOD:
        for vi in range(len(GOOD[n])):
            for ks in ('uu', 'bl', 'BZ'):
                s = seqs
                if GOOD[n][vi] == 'refine' and tier == 'quick':
                    s = seqs[::6]
                out.append(('eff', n, vi, ks, s))
    return out


def work(task):
    out = engine.Out()
    k = task[0]
    if k == 'ref':
        for bad in BAD_FOR[task[1]]:
            for kf in ('enum', 'string'):
                for pl in ('alone', 'first', 'last'):
                    refusal(task[1], bad, kf, pl, out)
    elif k == 'keys':
        for i in range(len(BADKEYS)):
            for pl in ('alone', 'first', 'last'):
                refusal_key(i, pl, out)
    elif k == 'pairs':
        for so in (None, '2D', 'full', 'scg'):
            for st in (None,) + tuple(GOOD['stepback_strategy']):
                for kf in ('enum', 'string'):
                    for vf in ('enum', 'string'):
                        for order in (True, False):
                            pair(so, st, kf, vf, order, out)
    elif k == 'hist':
        for f in ('enum', 'string'):
            for kind in ('path', 'str'):
                history(f, kind, out)
    elif k == 'def':
        default(task[1], out)
    else:
        _, n, vi, ks, seqs = task
        for acts in seqs:
            for kf in ('enum', 'string'):
                for vf in ('enum', 'string') if n in (
                    'subspace_solver', 'stepback_strategy') else ('plain',):
                    same_run(n, vi, kf, vf, ks, acts, out)
            if len(out.viol) > 2:
                break
    return out


def replay(c, out):
    if 'refusal' in c:
        refusal(*c['refusal'], out)
    elif 'badkey' in c:
        refusal_key(*c['badkey'], out)
    elif 'pair' in c:
        pair(*c['pair'], out)
    elif 'hist' in c:
        history(*c['hist'], out)
    elif 'default' in c:
        default(c['default'], out)
    else:
        from ..env import _act

        n, vi, kf, vf, ks, acts = c['effect']
        same_run(n, vi, kf, vf, ks, [_act(a) for a in acts], out)


__all__ = ['Snap', 'default_opt']
