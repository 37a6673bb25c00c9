"""C16: concurrent and nested runs do not influence each other."""

import itertools
import logging

import numpy as np

from .. import engine, sched
from ..core import (Holder, Optimizer, Options, StepBackStrategy,
                    SubSpaceDim, drive)
from ..env import approx, needs_hess
from ..tracecmp import diff

PID = 'C16'
MAXTASKS = 20
BOUNDS = {
    'quick': 'all interleavings of objective calls of 2 runs (4 calls each) '
             'and 3 runs (2 calls each) for 13 pairs (with equal '
             'and different bounds and dimensions); all single preemptions '
             'between lines of fides of 2-iteration runs for 6 pairs and '
             'between bytecodes for the start of a run; all nesting positions '
             'to depth 2 for 35 pairs; 40 nested runs alive at once',
    'thorough': 'single preemptions at every bytecode for 6 pairs; all pairs '
                'of preemptions at first/last visits of lines; longer runs',
}

RUNS = {
    # name: (approx, residual, solver, strategy, x0, verbosity, options)
    'exact': (None, False, '2D', 'reflect', [0.2, 0.7], logging.INFO, {}),
    'exact2': (None, False, '2D', 'reflect', [-0.5, 0.1], logging.WARNING,
               {'delta_init': 0.3}),
    'refine': (None, False, '2D', 'refine', [0.9, 0.98], logging.ERROR, {}),
    'full': (None, False, 'full', 'mixed', [0.95, 0.99], logging.DEBUG, {}),
    'scg': (None, False, 'scg', 'truncate', [0.95, -0.99], logging.DEBUG,
            {}),
    'bfgs': ('BFGS', False, '2D', 'reflect', [-0.9, 0.5], logging.INFO, {}),
    'sr1': ('SR1', False, 'full', 'truncate', [-0.9, 0.5], logging.WARNING,
            {}),
    'hyb': ('HybridFixed:switch_iteration=1', False, '2D', 'reflect',
            [-0.9, 0.5], logging.INFO, {}),
    'frac': ('HybridFraction', False, '2D', 'mixed', [-0.9, 0.5],
             logging.INFO, {}),
    'gn': (None, True, '2D', 'reflect', [0.1, 0.9], logging.INFO, {}),
    'ssm': ('SSM', True, '2D', 'reflect', [0.1, 0.9], logging.INFO, {}),
    'gnsbfgs': ('GNSBFGS', True, '2D', 'reflect', [0.1, 0.9], logging.DEBUG,
                {}),
    'fx': ('FX', True, '2D', 'reflect', [-0.3, 0.9], logging.INFO, {}),
    # other bounds, another dimension
    'free': (None, False, '2D', 'reflect', [-0.9, 0.5], logging.INFO, {}),
    'half': ('SR1', False, 'full', 'reflect', [-0.6, 0.2], logging.WARNING,
             {}),
    'one': (None, False, 'full', 'truncate', [-0.6], logging.INFO, {}),
    'three': ('BFGS', False, 'scg', 'mixed', [-0.6, 0.2, 0.3],
              logging.DEBUG, {}),
}
INF = np.inf
BOUNDS_OF = {
    'free': (np.array([-INF, -INF]), np.array([INF, INF])),
    'half': (np.array([-INF, -1.0]), np.array([0.5, INF])),
    'one': (np.array([-1.0]), np.array([INF])),
    'three': (np.array([-1.0, -INF, -INF]), np.array([INF, 0.25, INF])),
}
# everything the caller provides is shared by all runs
LB, UB = np.array([-1.0, -1.0]), np.array([1.0, 1.0])
FUNARGS = {'a': 1.0}
X0 = {k: np.array(v[4]) for k, v in RUNS.items()}
_opts = {}


def shared_options(name, maxiter):
    if (name, maxiter) not in _opts:
        r = RUNS[name]
        d = {Options.SUBSPACE_DIM: SubSpaceDim(r[2]),
             Options.STEPBACK_STRAT: StepBackStrategy(r[3]),
             Options.MAXITER: maxiter}
        d.update({Options(k): v for k, v in r[6].items()})
        _opts[name, maxiter] = d
    return _opts[name, maxiter]


def rosen(x):
    a, b = x
    f = 10.0 * (b - a * a) ** 2 + (1.2 - a) ** 2
    g = np.array([-40.0 * a * (b - a * a) - 2 * (1.2 - a),
                  20.0 * (b - a * a)])
    H = np.array([[120.0 * a * a - 40.0 * b + 2.0, -40.0 * a],
                  [-40.0 * a, 20.0]])
    return f, g, H


def chain(x):
    n = len(x)
    f, g, H = 0.0, np.zeros(n), np.zeros((n, n))
    for i in range(n - 1):
        a, b, c = rosen(x[i:i + 2])
        f = f + a
        g[i:i + 2] += b
        H[i:i + 2, i:i + 2] += c
    if n == 1:
        f, g, H = x[0] ** 4 - x[0], 4 * x ** 3 - 1, 12 * np.diag(x ** 2)
    return f, g, H


def resid(x):
    a, b = x
    r = np.array([3.0 * (b - a * a), 1.2 - a, 0.3 + a * b])
    J = np.array([[-6.0 * a, 3.0], [-1.0, 0.0], [b, a]])
    return r, J


class Run:
    """one optimization as a callable; `point()` is called before every
    objective evaluation, `inner[k]` is run within evaluation k"""

    def __init__(self, name, maxiter, point=None, inner=None, mark=None):
        self.name, self.maxiter = name, maxiter
        self.point, self.inner = point, inner or {}
        self.mark = mark

    def __call__(self, point=None):
        upd, res, so, st, x0, verb, opts = RUNS[self.name]
        point = point or self.point
        with sched.captured() as cap:
            h = Holder()
            lb, ub = BOUNDS_OF.get(self.name, (LB, UB))
            o = Optimizer(h, ub=ub, lb=lb, verbose=verb, resfun=res,
                          options=shared_options(self.name, self.maxiter),
                          funargs=FUNARGS, hessian_update=approx(upd))
            info = {}

            def env(k, x, snap):
                if self.mark is not None and k == 0:
                    self.mark()
                if point is not None:
                    point()
                if k in self.inner:
                    self.inner[k]()
                info.setdefault('names', set()).add(o.logger.name)
                info.setdefault('levels', set()).add(o.logger.level)
                info['handlers'] = len(o.logger.handlers)
                if res:
                    return resid(x)
                r = chain(x)
                return r[:2] if upd and not needs_hess(upd) else r

            tr = drive(o, X0[self.name], env, holder=h, limit=None)
            tr.logname = o.logger.name
            tr.loglevel = o.logger.level
        tr.info = info
        tr.verb = verb
        tr.lines = cap.lines()
        return tr


_solo = {}


def solo(name, maxiter):
    key = (name, maxiter)
    if key not in _solo:
        _solo[key] = Run(name, maxiter)()
    return _solo[key]


def compare(names, maxiter, trs, what, case, out):
    """all traces equal to undisturbed ones; loggers are separate"""
    for n, m, t in zip(names, maxiter, trs):
        if not hasattr(t, 'calls'):
            out.violation(f'{what}: {n} failed: {t!r}', case)
            return
        d = diff(solo(n, m), t)
        if d is None:
            a, b = solo(n, m).lines, t.lines
            if a != b:
                k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q),
                         min(len(a), len(b)))
                d = (f'log line {k}: {a[k:k + 1]} vs {b[k:k + 1]} '
                     f'({len(a)} vs {len(b)} lines)')
        if d is None and (t.loglevel != t.verb
                          or len(t.info['names']) != 1
                          or t.info['levels'] != {t.verb}):
            d = f'logger {t.info} for verbosity {t.verb}'
        if d:
            out.violation(f'{what}: {n} differs from undisturbed run: {d}',
                          case)
            return
    lg = [t.logname for t in trs]
    if len(set(lg)) != len(lg):
        out.violation(f'{what}: runs share logger {lg}', case)


def unbox(b):
    return b.get('ret', b.get('exc'))


# ------------------------------------------------------------------ cases
def case_calls(names, maxiter, order, out):
    case = {'kind': 'calls', 'names': names, 'maxiter': maxiter,
            'order': order}
    b = sched.Baton(order, len(names))
    boxes = b.run([Run(n, m) for n, m in zip(names, maxiter)])
    out.add('schedules')
    out.add('transitions', len(order))
    out.add('traces_validated_against_impl')
    compare(names, maxiter, [unbox(x) for x in boxes],
            f'order {"".join(map(str, order))}', case, out)
    if not out.samples:
        out.sample({**case, 'executed': b.trace})


def case_pre(names, maxiter, i, j, opcodes, out):
    case = {'kind': 'pre', 'names': names, 'maxiter': maxiter, 'i': i,
            'j': j, 'opcodes': opcodes}
    a, b, hit = sched.preempt(Run(names[0], maxiter[0]),
                              Run(names[1], maxiter[1]), i, j, opcodes)
    out.add('schedules')
    out.add('transitions', 2 if j is None else 3)
    out.add('traces_validated_against_impl')
    out.add('preempted' if hit else 'not_reached')
    compare(names, maxiter, [unbox(a), unbox(b)],
            f'preemption at {"bytecode" if opcodes else "line"} event {i}'
            + (f'/{j}' if j is not None else ''), case, out)


def case_nest(names, maxiter, k, k2, out):
    """names[1] runs within evaluation k of names[0], names[2] within
    evaluation k2 of names[1]"""
    case = {'kind': 'nest', 'names': names, 'maxiter': maxiter, 'k': k,
            'k2': k2}
    got = []
    runs = [Run(n, m) for n, m in zip(names, maxiter)]
    if len(runs) > 2:
        runs[1].inner = {k2: lambda: got.append((2, runs[2]()))}
    runs[0].inner = {k: lambda: got.append((1, runs[1]()))}
    t0 = runs[0]()
    got.append((0, t0))
    trs = [t for _, t in sorted(got, key=lambda p: p[0])]
    out.add('schedules')
    out.add('transitions', len(names))
    out.add('traces_validated_against_impl')
    if len(trs) != len(names):
        out.violation('nested run failed', case)
        return
    compare(names, maxiter, trs, f'nested in evaluation {k}/{k2}', case, out)


def case_deep(depth, out):
    """run k+1 is started within the first evaluation of run k; all of them
    are alive at the same time"""
    case = {'kind': 'deep', 'depth': depth}
    names = [list(RUNS)[k % len(RUNS)] for k in range(depth)]
    got = {}

    def start(k):
        r = Run(names[k], 1)
        if k + 1 < depth:
            r.inner = {0: lambda: start(k + 1)}
        got[k] = r()

    start(0)
    out.add('schedules')
    out.add('states', depth)
    out.add('transitions', depth)
    out.add('traces_validated_against_impl', depth)
    if len(got) != depth:
        out.violation('nested run failed', case)
        return
    compare(names, [1] * depth, [got[k] for k in range(depth)],
            f'{depth} nested runs', case, out)


def n_events(name, maxiter, opcodes, until_first=False):
    t = sched.Tracer(opcodes=opcodes, record=True)
    mark = []
    r = Run(name, maxiter, mark=lambda: mark.append(t.n))
    with sched.stderr_dispatched():
        t.run(r)
    return mark[0] if until_first else t.n, t.log


def interesting(log):
    """first and last visit of every line"""
    first, last = {}, {}
    for i, e in enumerate(log):
        first.setdefault(e, i)
        last[e] = i
    return sorted(set(first.values()) | set(last.values()))


PAIRS = [('exact', 'exact2'), ('bfgs', 'bfgs'), ('gnsbfgs', 'ssm'),
         ('refine', 'exact'), ('hyb', 'sr1'), ('scg', 'full'),
         ('frac', 'hyb'), ('gn', 'fx'), ('full', 'full'),
         ('free', 'exact'), ('half', 'free'), ('one', 'three'), ('three', 'gn')]


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for p in PAIRS:
        m = 3 if quick else 5
        orders = sorted(set(itertools.permutations(
            [0] * (m + 1) + [1] * (m + 1)))) if m < 4 else [
            tuple(1 if k in c else 0 for k in range(2 * m + 2))
            for c in itertools.combinations(range(2 * m + 2), m + 1)]
        for k in range(0, len(orders), 40):
            out.append(('calls', p, (m, m), orders[k:k + 40]))
    for tri in [('exact', 'bfgs', 'gnsbfgs'), ('hyb', 'hyb', 'hyb')]:
        m = 1 if quick else 2
        orders = sorted(set(perms3(m + 1)))
        for k in range(0, len(orders), 45):
            out.append(('calls', tri, (m,) * 3, orders[k:k + 45]))
    for p in PAIRS[:6] + ([] if quick else PAIRS[9:]):
        for q in {p, p[::-1]}:
            if quick and q != p and 'refine' not in p:
                continue
            out.append(('pre', q, (2, 2), False, quick))
    # start of a run, between bytecodes
    out.append(('start', ('exact', 'exact2'), (1, 1)))
    out.append(('start', ('bfgs', 'bfgs'), (1, 1)))
    for a, b in itertools.product(
            ['exact', 'bfgs', 'gnsbfgs', 'hyb', 'free', 'half', 'three'],
            ['exact', 'bfgs', 'refine', 'half', 'one']):
        out.append(('nest', a, b, quick))
    out.append(('deep', 40 if quick else 120))
    # split the preemption points
    res = []
    for t in out:
        if t[0] == 'pre':
            n, log = n_events(t[1][0], t[2][0], not quick)
            step = 100
            for k in range(0, n, step):
                res.append(('prex', t[1], t[2], range(k, min(n, k + step)),
                            None, not quick))
            if not quick:
                n1, log1 = n_events(t[1][0], t[2][0], False)
                n2, log2 = n_events(t[1][1], t[2][1], False)
                for i in interesting(log1):
                    res.append(('prex', t[1], t[2], [i], interesting(log2),
                                False))
        elif t[0] == 'start':
            n, _ = n_events(t[1][0], t[2][0], True, True)
            for k in range(0, n, 100):
                res.append(('prex', t[1], t[2], range(k, min(n, k + 100)),
                            None, True))
            # both threads between bytecodes of the start (two preemptions)
            _, log = n_events(t[1][0], t[2][0], False)
            n1, _ = n_events(t[1][0], t[2][0], False, True)
            n2, _ = n_events(t[1][1], t[2][1], False, True)
            for k in range(0, n1, 1 if not quick else 4):
                res.append(('prex', t[1], t[2], [k], range(n2), False))
        else:
            res.append(t)
    # long tasks first
    return sorted(res, key=lambda t: t[0] != 'prex')


def perms3(m):
    out = []

    def rec(pre, c):
        if not any(c):
            out.append(tuple(pre))
        for i in range(3):
            if c[i]:
                c[i] -= 1
                rec(pre + [i], c)
                c[i] += 1

    rec([], [m] * 3)
    return out


def work(task):
    out = engine.Out()
    with sched.stderr_dispatched():
        if task[0] == 'calls':
            _, names, m, orders = task
            for o in orders:
                case_calls(names, m, list(o), out)
                out.add('states')
                if len(out.viol) > 1:
                    break
        elif task[0] == 'prex':
            _, names, m, idx, js, op = task
            for i in idx:
                for j in (js if js is not None else [None]):
                    case_pre(names, m, i, j, op, out)
                    out.add('states')
                    if len(out.viol) > 1:
                        return out
        elif task[0] == 'deep':
            case_deep(task[1], out)
        else:
            _, a, b, quick = task
            for k in range(4):
                case_nest((a, b), (3, 3), k, None, out)
                out.add('states')
                for c in ('exact', 'half'):
                    for k2 in range(3):
                        case_nest((a, b, c), (3, 2, 2), k, k2, out)
                        out.add('states')
    return out


def replay(c, out):
    with sched.stderr_dispatched():
        if c['kind'] == 'calls':
            case_calls(c['names'], c['maxiter'], c['order'], out)
        elif c['kind'] == 'pre':
            case_pre(c['names'], c['maxiter'], c['i'], c['j'], c['opcodes'],
                     out)
        elif c['kind'] == 'deep':
            case_deep(c['depth'], out)
        else:
            case_nest(c['names'], c['maxiter'], c['k'], c['k2'], out)
