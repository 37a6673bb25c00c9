"""Core of the model-checking framework for fides.

The real optimizer is a *reactive system*: everything it does is determined by
its configuration and by the answers the environment gives (objective values
at the points it asks for, clock readings, thread switches).  This module

* imports fides from /repo's working tree (never a copy),
* owns the clock,
* closes the system with a driver that records, at every objective call, the
  documented public state of the optimizer (`x, fval, grad, hess, delta, ...`),
* offers enumeration helpers (mixed radix spaces, choice-sequence trees),
* runs work over all cores and aggregates states / transitions / violations.

Everything observed is public API: constructor, minimize(), the documented
attributes, the objective callback, the history file and the public modules.
"""

import os

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'

import signal  # noqa: E402
import sys  # noqa: E402
import time as _time  # noqa: E402
import warnings  # noqa: E402

sys.dont_write_bytecode = True
REPO = os.environ.get('FIDES_REPO', '/repo')
sys.path.insert(0, REPO)


# --------------------------------------------------------------------------
# virtual clock: installed before fides is imported so that any clock function
# that fides binds is the wrapper; inactive (real time) unless a harness
# activates it
# --------------------------------------------------------------------------
class VirtualClock:
    def __init__(self):
        self.active = False
        self.now = 0.0
        self.reads = 0

    def read(self, real):
        if self.active:
            self.reads += 1
            return self.now
        return real()


clock = VirtualClock()
_real = {n: getattr(_time, n) for n in ('time', 'monotonic', 'perf_counter')}


def _mk(real):
    def read():
        return clock.read(real)

    return read


real_time = _real['perf_counter']
for _n, _f in _real.items():
    setattr(_time, _n, _mk(_f))

import logging  # noqa: E402

import numpy as np  # noqa: E402

warnings.filterwarnings('ignore')
np.seterr(all='ignore')

import fides  # noqa: E402
from fides import (  # noqa: E402
    ExitFlag,
    Optimizer,
    Options,
    StepBackStrategy,
    SubSpaceDim,
)

assert os.path.realpath(fides.__file__).startswith(
    os.path.realpath(REPO) + os.sep
), fides.__file__

INF = np.inf
EPS = np.spacing(1.0)
NUDGE = 1e2 * EPS  # documented degeneracy threshold
SILENT = logging.CRITICAL + 10

SOLVERS = ['2D', 'full', 'scg']
STRATS = ['reflect', 'reflect_single', 'truncate', 'mixed', 'refine']
COMBOS = [
    (so, st)
    for so in SOLVERS
    for st in STRATS
    if not (so == 'scg' and st == 'refine')
]
COMBOS_FAST = [c for c in COMBOS if c[1] != 'refine']


class Hang(BaseException):
    """CPU budget of one execution exhausted"""


def _on_alarm(signum, frame):
    raise Hang()


class cpu_limit:
    """abort one execution after `s` seconds of *CPU* time of this process
    (not wall time: independent of machine load)"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        if self.s is None:  # e.g., not in the main thread
            return
        signal.signal(signal.SIGVTALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        if self.s is None:
            return False
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


# --------------------------------------------------------------------------
# observation of one execution
# --------------------------------------------------------------------------
def _c(a):
    return None if a is None else np.array(a, copy=True)


class Snap:
    """documented public state of an optimizer at one moment"""

    __slots__ = (
        'x', 'f', 'g', 'H', 'delta', 'it', 'xm', 'fm', 'gm', 'flag', 'conv',
        'ratio',
    )

    def __init__(self, o):
        self.x = _c(o.x)
        self.f = o.fval
        self.g = _c(o.grad)
        self.H = _c(o.hess)
        self.delta = float(o.delta)
        self.it = o.iteration
        self.xm = _c(o.x_min)
        self.fm = o.fval_min
        self.gm = _c(o.grad_min)
        self.flag = o.exitflag
        self.conv = o.converged
        self.ratio = getattr(o, 'tr_ratio', None)


class Step:
    """one transition: state before, trial point, answer, state after"""

    __slots__ = ('pre', 'xt', 'ans', 'post', 'k')


class Trace:
    def __init__(self):
        self.calls = []  # (x, ans) of every objective call
        self.snaps = []  # snapshot at every objective call
        self.final = None
        self.ret = None
        self.exc = None
        self.hang = False
        self.opt = None

    @property
    def steps(self):
        out = []
        n = len(self.calls)
        for k in range(1, n):
            s = Step()
            s.k = k
            s.pre = self.snaps[k]
            s.xt, s.ans = self.calls[k]
            s.post = self.snaps[k + 1] if k + 1 < n else self.final
            out.append(s)
        return out


def cleanup_logger(o):
    """Optimizer creates one globally registered logger per run; drop it so
    that millions of executions fit in memory"""
    lg = getattr(o, 'logger', None)
    if lg is not None:
        for h in list(lg.handlers):
            lg.removeHandler(h)
        logging.Logger.manager.loggerDict.pop(lg.name, None)


def drive(opt, x0, env, hess0=None, start_id=None, limit=30.0, holder=None,
          alias=None):
    """Runs opt.minimize(x0) where `env(k, x, snap)` answers the k-th
    objective call.  The objective given to the Optimizer must be
    `holder.fun`."""
    tr = Trace()
    tr.opt = opt

    def fun(x, **kw):
        k = len(tr.calls)
        snap = Snap(opt)
        xx = np.array(x, copy=True)
        tr.snaps.append(snap)
        tr.calls.append((xx, None))
        ans = env(k, xx, snap)
        tr.calls[-1] = (xx, tuple(_c(a) if isinstance(a, np.ndarray) else a
                                  for a in ans))
        if alias is not None:
            return alias(k, x, ans)
        return ans

    holder.target = fun
    kwargs = {}
    if hess0 is not None:
        kwargs['hess0'] = hess0
    if start_id is not None:
        kwargs['start_id'] = start_id
    try:
        with cpu_limit(limit):
            tr.ret = opt.minimize(x0, **kwargs)
    except Hang:
        tr.hang = True
        tr.exc = Hang()
    except Exception as e:  # noqa: BLE001
        tr.exc = e
    tr.final = Snap(opt)
    cleanup_logger(opt)
    return tr


class Holder:
    def __init__(self):
        self.target = None

    def __call__(self, x, **kw):
        return self.target(x, **kw)


def make(lb, ub, solver='2D', strat='reflect', hess_update=None,
         resfun=False, verbose=SILENT, **opts):
    h = Holder()
    options = {
        Options.SUBSPACE_DIM: SubSpaceDim(solver),
        Options.STEPBACK_STRAT: StepBackStrategy(strat),
    }
    for k, v in opts.items():
        options[Options(k)] = v
    o = Optimizer(
        h,
        ub=np.array(ub, dtype=float),
        lb=np.array(lb, dtype=float),
        verbose=verbose,
        options=options,
        hessian_update=hess_update,
        resfun=resfun,
    )
    return o, h


# --------------------------------------------------------------------------
# reference formulas (Coleman & Li), written independently of fides
# --------------------------------------------------------------------------
def affine(x, g, lb, ub):
    n = len(x)
    v = np.empty(n)
    dv = np.zeros(n)
    for i in range(n):
        if g[i] < 0:
            if ub[i] < INF:
                v[i] = x[i] - ub[i]
                dv[i] = 1.0
            else:
                v[i] = -1.0
        else:
            if lb[i] > -INF:
                v[i] = x[i] - lb[i]
                dv[i] = 1.0
            else:
                v[i] = 1.0
    return v, dv


class Quad:
    """scaled trust region model at (x, g, H)"""

    def __init__(self, x, g, H, lb, ub, theta_max=0.95):
        self.x = np.asarray(x, float)
        self.g = np.asarray(g, float)
        self.H = np.asarray(H, float)
        self.lb = np.asarray(lb, float)
        self.ub = np.asarray(ub, float)
        v, dv = affine(self.x, self.g, self.lb, self.ub)
        self.v, self.dv = v, dv
        self.D = np.sqrt(np.abs(v))
        self.sg = self.D * self.g
        self.M = (self.D[:, None] * self.H) * self.D[None, :] + np.diag(
            np.abs(self.g) * dv
        )
        self.theta = max(theta_max, 1 - np.max(np.abs(v * self.g)))

    def q(self, ss):
        return 0.5 * ss @ (self.M @ ss) + self.sg @ ss

    def scaled(self, xt):
        """scaled step of a trial point and componentwise error bound that
        accounts for rounding of x + s"""
        dx = np.asarray(xt, float) - self.x
        ss = np.zeros_like(dx)
        err = np.zeros_like(dx)
        nz = self.D > 0
        ss[nz] = dx[nz] / self.D[nz]
        ulp = np.spacing(np.maximum(np.abs(self.x), np.abs(xt)))
        err[nz] = 2 * ulp[nz] / self.D[nz] + 1e-14 * np.abs(ss[nz])
        return ss, err

    def q_err(self, ss, err):
        a = np.abs(self.M)
        a = 0.5 * (a + a.T)  # matrices may be unsymmetric
        lin = (a @ np.abs(ss) + np.abs(self.sg)) @ err + 0.5 * err @ a @ err
        mag = 0.5 * np.abs(ss) @ a @ np.abs(ss) + np.abs(self.sg) @ np.abs(ss)
        return lin + 1e-13 * mag


def fl(a):
    """floats / arrays to JSON-able"""
    if a is None:
        return None
    if isinstance(a, np.ndarray):
        return [fl(z) for z in a]
    if isinstance(a, (list, tuple)):
        return [fl(z) for z in a]
    if isinstance(a, dict):
        return {str(k): fl(v) for k, v in a.items()}
    if isinstance(a, (np.floating, float)):
        return repr(float(a))
    if isinstance(a, (np.integer,)):
        return int(a)
    if isinstance(a, (bool, int, str)):
        return a
    return repr(a)
