"""C18: objectives, starts and initial Hessians that violate the documented
contract are refused; additional arguments reach every evaluation."""

import collections
import itertools

import numpy as np

from .. import engine
from ..core import (COMBOS, INF, SILENT, Holder, Optimizer, cleanup_logger,
                    make)
from ..env import approx
from ..spaces import box

PID = 'C18'
BOUNDS = {
    'quick': 'every wrong output (number of values: 0,1,2,3,4; value: 5 '
             'non-scalars; gradient: 10 shapes; Hessian: 14 shapes; residual: '
             '12 shapes) for n=1,2,3, boxes free/bounded/on bound, 14 '
             'solver/strategy pairs, exact Hessians, 9 secant/hybrid schemes '
             'and 6 residual modes; wrong number of values at evaluations '
             '1,2,3; 11 ill-shaped starts; 8 ill-shaped initial Hessians; '
             'all scheme x mode pairs; 5 sets of additional arguments over '
             'two runs in all modes; well-formed outputs of 9 types',
    'thorough': 'the same with 3 more boxes per dimension',
}

DIRECT = [None, 'HybridFixed', 'HybridFraction']
TWO = ['BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden:phi=0.5']
RESID = ['res', 'SSM', 'TSSM', 'GNSBFGS', 'FX', 'FX:hybrid_tol=0.4']
MODES = DIRECT + TWO + RESID
BOXES = {1: ['u', 'b', 'Z'], 2: ['uu', 'bl', 'BZ'], 3: ['uuu', 'blB', 'ZuU']}
BOXES_T = {1: ['l', 'U', 'w'], 2: ['ll', 'UB', 'wL'], 3: ['lll', 'bbb', 'LwB']}
M = 4


def build(mode, lb, ub, so='2D', st='reflect', **kw):
    if mode in RESID:
        return make(lb, ub, so, st, resfun=True,
                    hess_update=None if mode == 'res' else approx(mode), **kw)
    return make(lb, ub, so, st, hess_update=approx(mode), **kw)


def good(mode, n, x):
    """well formed output"""
    if mode in RESID:
        J = np.array([[1.0 + i - j + i * j * .5 for j in range(n)]
                      for i in range(M)])
        return J @ x - 1.0, J
    f = float(x @ x) + float(np.sum(x))
    g = 2 * x + 1.0
    if mode in TWO:
        return f, g
    return f, g, 2.0 * np.eye(n)


def wrong(mode, n):
    """name -> wrong output at x (function of the well formed output)"""
    w = {}

    def rep(i, v):
        def fun(o):
            o = list(o)
            o[i] = v(o[i])
            return tuple(o)
        return fun

    w['0 values'] = lambda o: ()
    w['value only'] = lambda o: o[0]
    w['1-tuple'] = lambda o: (o[0],)
    w['None'] = lambda o: None
    w['array only'] = lambda o: o[1]
    w['one less'] = lambda o: o[:-1]
    w['one more'] = lambda o: o + (o[-1],)
    w['two more'] = lambda o: o + o[-1:] * 2
    w['one more None'] = lambda o: o + (None,)
    if mode in RESID:
        w['J missing row'] = rep(1, lambda a: a[:-1])
        w['J extra row'] = rep(1, lambda a: np.vstack([a, a[:1]]))
        w['J extra column'] = rep(1, lambda a: np.hstack([a, a[:, :1]]))
        w['J vector'] = rep(1, lambda a: a[:, 0])
        w['J 0d'] = rep(1, lambda a: np.array(1.5))
        w['J 3d'] = rep(1, lambda a: a[:, :, None])
        w['r column'] = rep(0, lambda a: a[:, None])
        w['r row'] = rep(0, lambda a: a[None, :])
        w['r missing'] = rep(0, lambda a: a[:-1])
        w['r extra'] = rep(0, lambda a: np.append(a, 1.0))
        w['swapped'] = lambda o: o[::-1]
        if n != 1:
            w['J missing column'] = rep(1, lambda a: a[:, :-1])
        if n != M:
            w['J transposed'] = rep(1, lambda a: a.T.copy())
        return w
    w['f 1-array'] = rep(0, lambda a: np.array([a]))
    w['f n-array'] = rep(0, lambda a: a * np.ones(n))
    w['f 1x1'] = rep(0, lambda a: np.array([[a]]))
    w['f 2-array'] = rep(0, lambda a: a * np.ones(2))
    w['f empty'] = rep(0, lambda a: np.array([]))
    w['g scalar'] = rep(1, lambda a: float(a[0]))
    w['g np scalar'] = rep(1, lambda a: a[0])
    w['g column'] = rep(1, lambda a: a[:, None])
    w['g row'] = rep(1, lambda a: a[None, :])
    w['g extra'] = rep(1, lambda a: np.append(a, 1.0))
    w['g double'] = rep(1, lambda a: np.append(a, a))
    w['g missing'] = rep(1, lambda a: a[:-1])
    w['g square'] = rep(1, lambda a: np.outer(a, a))
    w['g 3d'] = rep(1, lambda a: a[:, None, None])
    w['g 0d'] = rep(1, lambda a: np.array(a[0]))
    if n > 1:
        w['g one entry'] = rep(1, lambda a: a[:1])
    if mode in TWO:
        return w
    w['H scalar'] = rep(2, lambda a: 2.0)
    w['H np scalar'] = rep(2, lambda a: a[0, 0])
    w['H 0d'] = rep(2, lambda a: np.array(2.0))
    w['H diagonal'] = rep(2, lambda a: np.diag(a).copy())
    w['H 3d'] = rep(2, lambda a: a[None])
    w['H 3d back'] = rep(2, lambda a: a[:, :, None])
    w['H flat'] = rep(2, lambda a: a.ravel())
    w['H extra row'] = rep(2, lambda a: np.vstack([a, a[:1]]))
    w['H extra col'] = rep(2, lambda a: np.hstack([a, a[:, :1]]))
    w['H missing row'] = rep(2, lambda a: a[:-1])
    w['H missing col'] = rep(2, lambda a: a[:, :-1])
    w['H smaller'] = rep(2, lambda a: a[:-1, :-1])
    w['H larger'] = rep(2, lambda a: np.eye(n + 1))
    w['H double'] = rep(2, lambda a: np.eye(2 * n))
    if n > 1:
        w['H 1x1'] = rep(2, lambda a: a[:1, :1])
        w['H row'] = rep(2, lambda a: a[:1])
        w['H column'] = rep(2, lambda a: a[:, :1])
    return w


def call(o, h, fun, x0, **kw):
    calls = []

    def target(x, **kk):
        calls.append(np.array(x, copy=True))
        return fun(len(calls) - 1, x)

    h.target = target
    exc = ret = None
    try:
        ret = o.minimize(x0, **kw)
    except Exception as e:  # noqa: BLE001
        exc = e
    cleanup_logger(o)
    return calls, exc, ret


def output(mode, ks, so, st, name, out):
    lb, ub, x0 = box(ks)
    n = len(x0)
    o, h = build(mode, lb, ub, so, st, maxiter=3)
    bad = wrong(mode, n)[name]
    calls, exc, _ = call(o, h, lambda k, x: bad(good(mode, n, x)),
                         np.array(x0))
    out.add('states')
    out.add('transitions')
    out.add('traces_validated_against_impl')
    if not isinstance(exc, ValueError) or len(calls) != 1:
        out.violation(
            f'{mode} n={n} {ks} {so}/{st}: output "{name}" -> {exc!r} after '
            f'{len(calls)} evaluations', {'output': [mode, ks, so, st, name]})
    elif not out.samples:
        out.sample({'mode': mode, 'output': name, 'exception': str(exc)})


def late(mode, ks, at, name, out):
    """wrong number of values at a later evaluation"""
    lb, ub, x0 = box(ks)
    n = len(x0)
    o, h = build(mode, lb, ub, maxiter=6, gatol=0.0, fatol=0.0, frtol=0.0)
    bad = wrong(mode, n)[name]

    def fun(k, x):
        a = good(mode, n, x)
        return bad(a) if k == at else a

    calls, exc, _ = call(o, h, fun, np.array(x0))
    out.add('states')
    out.add('transitions', len(calls))
    if len(calls) <= at:
        return  # the run ended before
    if not isinstance(exc, ValueError) or len(calls) != at + 1:
        out.violation(
            f'{mode} {ks}: "{name}" at evaluation {at} -> {exc!r} after '
            f'{len(calls)} evaluations', {'late': [mode, ks, at, name]})


def starts(n):
    x = np.full(n, 0.25)
    s = {
        'column': x[:, None], 'row': x[None, :], '3d': x[:, None, None],
        'square': np.full((n, n), 0.25), 'scalar': 0.25,
        '0d': np.array(0.25), 'float64': np.float64(0.25),
        'longer': np.append(x, 0.25), 'double': np.append(x, x),
        'empty': np.array([]), 'nested list': [[0.25] * n],
    }
    if n > 1:
        s['one entry'] = x[:1]
        s['shorter'] = x[:-1]
    return s


def start(mode, ks, name, out):
    lb, ub, x0 = box(ks)
    n = len(x0)
    o, h = build(mode, lb, ub, maxiter=3)
    calls, exc, _ = call(o, h, lambda k, x: good(mode, n, np.resize(x, n)),
                         starts(n)[name])
    out.add('states')
    out.add('transitions')
    if not isinstance(exc, ValueError) or calls:
        out.violation(f'{mode} {ks}: start "{name}" -> {exc!r} after '
                      f'{len(calls)} evaluations',
                      {'start': [mode, ks, name]})


def hess0s(n):
    h = {
        'larger': np.eye(n + 1), 'double': np.eye(2 * n),
        'extra row': np.ones((n + 1, n)), 'extra col': np.ones((n, n + 1)),
        'vector': np.ones(n), '3d': np.ones((n, n, 1)),
        '3d front': np.ones((1, n, n)), 'empty': np.ones((0, 0)),
    }
    if n > 1:
        h['smaller'] = np.eye(n - 1)
        h['missing row'] = np.ones((n - 1, n))
        h['missing col'] = np.ones((n, n - 1))
        h['1x1'] = np.eye(1)
    return h


def hess0(mode, ks, name, out):
    lb, ub, x0 = box(ks)
    n = len(x0)
    o, h = build(mode, lb, ub, maxiter=3)
    calls, exc, _ = call(o, h, lambda k, x: good(mode, n, x), np.array(x0),
                         hess0=hess0s(n)[name])
    out.add('states')
    out.add('transitions')
    if not isinstance(exc, ValueError) or len(calls) > 1:
        out.violation(f'{mode} {ks}: initial Hessian "{name}" -> {exc!r} '
                      f'after {len(calls)} evaluations',
                      {'hess0': [mode, ks, name]})


def mismatch(scheme, resfun, n, out):
    needs = scheme in RESID
    exc = None
    try:
        Optimizer(Holder(), ub=np.full(n, INF), lb=np.full(n, -INF),
                  verbose=SILENT, hessian_update=approx(scheme),
                  resfun=resfun)
    except Exception as e:  # noqa: BLE001
        exc = e
    out.add('states')
    out.add('transitions')
    want = needs != resfun
    if want != isinstance(exc, ValueError) or (exc is not None and not want):
        out.violation(f'{scheme} with resfun={resfun}: {exc!r}',
                      {'mismatch': [scheme, resfun, n]})


# --------------------------------------------------------------- arguments
class Token:
    pass


def argsets():
    return {
        'none': None, 'empty': {}, 'one': {'a': 1.0},
        'many': {'a': np.array([1.0, 2.0]), 'b': None, 'c': Token(),
                 'd': [1, [2]], 'e': 'text', 'f': False, 'g': 0},
        'x-like': {'y': 1, 'xx': 2, 'fun': 3, 'self_': 4, 'options': {}},
    }


def arguments(mode, ks, so, st, name, out):
    lb, ub, x0 = box(ks)
    n = len(x0)
    args = argsets()[name]
    before = None if args is None else dict(args)
    seen = []

    def fun(x, **kw):
        seen.append(kw)
        return good(mode, n, x)

    o = Optimizer(fun, ub=np.array(ub, float), lb=np.array(lb, float),
                  verbose=SILENT, funargs=args, resfun=mode in RESID,
                  hessian_update=None if mode == 'res' else approx(mode),
                  options={'maxiter': 3, 'subspace_solver': so,
                           'stepback_strategy': st, 'gatol': 0.0,
                           'fatol': 0.0, 'frtol': 0.0})
    case = {'args': [mode, ks, so, st, name]}
    want = before or {}
    for r in range(2):
        try:
            o.minimize(np.array(x0))
        except Exception as e:  # noqa: BLE001
            out.violation(f'{mode} with arguments {name}: {e!r}', case)
            return
        cleanup_logger(o)
    out.add('states')
    out.add('transitions', len(seen))
    for k, kw in enumerate(seen):
        if set(kw) != set(want) or any(kw[a] is not want[a] for a in want):
            out.violation(f'{mode} {ks}: evaluation {k} got arguments '
                          f'{sorted(kw)}, expected {sorted(want)} unchanged',
                          case)
            return
    if args is not None and (set(args) != set(before) or any(
            args[a] is not before[a] for a in before)):
        out.violation('dictionary of arguments was modified', case)
    if len(seen) < 2:
        out.violation(f'only {len(seen)} evaluations', case)


# -------------------------------------------------------------- well formed
Tri = collections.namedtuple('Tri', 'f g h')
Two = collections.namedtuple('Two', 'f g')


def fine(mode, n):
    w = {'plain': lambda o: o}

    def each(f, m=lambda a: a):
        return lambda o: (f(o[0]),) + tuple(m(a) for a in o[1:])

    if mode not in RESID:
        w['np scalar'] = each(np.float64)
        w['float32'] = each(np.float32)
        w['int'] = each(lambda a: int(round(a)))
        w['np int'] = each(lambda a: np.int64(round(a)))
        w['fortran'] = each(float, np.asfortranarray)
        w['read-only'] = each(float, ro)
        w['view'] = each(float, lambda a: np.repeat(a, 2, axis=0)[::2])
    else:
        w['fortran'] = each(np.asarray, np.asfortranarray)
        w['read-only'] = each(ro, ro)
        w['view'] = each(lambda a: np.repeat(a, 2)[::2],
                         lambda a: np.repeat(a, 2, axis=0)[::2])
        w['one residual'] = lambda o: (o[0][:1], o[1][:1])
    w['named'] = lambda o: (Tri if len(o) == 3 else Two)(*o)
    return w


def ro(a):
    a = np.array(a)
    a.setflags(write=False)
    return a


def wellformed(mode, ks, so, st, name, out):
    lb, ub, x0 = box(ks)
    n = len(x0)
    o, h = build(mode, lb, ub, so, st, maxiter=3, gatol=0.0, fatol=0.0,
                 frtol=0.0)
    conv = fine(mode, n)[name]
    calls, exc, ret = call(o, h, lambda k, x: conv(good(mode, n, x)),
                           np.array(x0))
    out.add('states')
    out.add('transitions', len(calls))
    out.add('traces_validated_against_impl')
    if exc is not None or len(calls) < 2:
        out.violation(f'{mode} {ks} {so}/{st}: well-formed output "{name}" '
                      f'refused: {exc!r} after {len(calls)} evaluations',
                      {'fine': [mode, ks, so, st, name]})


# ------------------------------------------------------------------- tasks
def tasks(tier):
    out = []
    for n in (1, 2, 3):
        boxes = BOXES[n] + (BOXES_T[n] if tier == 'thorough' else [])
        for ks in boxes:
            for mode in MODES:
                for k in ('output', 'late', 'start', 'hess0', 'args', 'fine'):
                    out.append((k, mode, ks))
    return out + [('mismatch',)]


def work(task):
    out = engine.Out()
    if task[0] == 'mismatch':
        for s, r, n in itertools.product(MODES, (True, False), (1, 3)):
            if s not in (None, 'res'):
                mismatch(s, r, n, out)
        return out
    k, mode, ks = task
    n = len(ks)
    if k == 'output':
        for so, st in COMBOS:
            for name in wrong(mode, n):
                output(mode, ks, so, st, name, out)
    elif k == 'late':
        for at in (1, 2, 3):
            for name in wrong(mode, n):
                if name[0] in '0123456789' or name.startswith(
                        ('one', 'two', 'None', 'value', 'array')):
                    late(mode, ks, at, name, out)
    elif k == 'start':
        for name in starts(n):
            start(mode, ks, name, out)
    elif k == 'hess0':
        if mode not in (None, 'res'):
            for name in hess0s(n):
                hess0(mode, ks, name, out)
    elif k == 'args':
        for so, st in (('2D', 'reflect'), ('full', 'truncate'),
                       ('scg', 'mixed')):
            for name in argsets():
                arguments(mode, ks, so, st, name, out)
    else:
        for so, st in (('2D', 'reflect'), ('full', 'mixed'),
                       ('scg', 'truncate')):
            for name in fine(mode, n):
                wellformed(mode, ks, so, st, name, out)
    return out


def replay(c, out):
    f = {'output': output, 'late': late, 'start': start, 'hess0': hess0,
         'mismatch': mismatch, 'args': arguments, 'fine': wellformed}
    for k, a in c.items():
        f[k](*a, out)
