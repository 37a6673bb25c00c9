"""C24: exceptions of the objective end a run cleanly; runs have no side
effects."""

import contextlib
import decimal
import gc
import itertools
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import engine, loop, lsq
from ..core import Holder, Snap, cleanup_logger, fl, make
from ..env import Prob, answer, approx, needs_hess
from ..spaces import box
from ..tracecmp import eq

PID = 'C24'
BOUNDS = {
    'quick': 'every third (8th with history file) of: 23 kinds of exceptions (incl. arithmetic, linear algebra, '
             'operating system, interrupts, generator exits) at every one of '
             'up to 5 evaluations of 5 kinds of histories, after 0 or 1 '
             'earlier run, with and without history file; 5 boxes, all '
             'solver/strategy pairs (alternating), exact Hessians, 8 secant '
             'and hybrid and 5 residual schemes; 28 kinds of global state (at unusual settings) '
             'before and after completed and aborted runs; 4 states of the '
             'random generators',
    'thorough': 'all of them, all pairs',
}


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


class Odd(RuntimeError):
    """needs several arguments, is falsy"""

    def __init__(self, a, b):
        super().__init__(a, b)
        self.a = a

    def __bool__(self):
        return False


EXC = [
    lambda: ValueError('v'), lambda: RuntimeError('r'),
    lambda: FloatingPointError('fp'), lambda: ZeroDivisionError('z'),
    lambda: np.linalg.LinAlgError('singular'), lambda: OverflowError('o'),
    lambda: KeyboardInterrupt(), lambda: SystemExit(3),
    lambda: StopIteration(1), lambda: GeneratorExit(),
    lambda: TypeError('t'), lambda: AttributeError('a'),
    lambda: AssertionError(), lambda: MemoryError(),
    lambda: OSError(2, 'no such file'), lambda: Custom('c'),
    lambda: CustomBase('b'), lambda: Odd(1, 2), lambda: TimeoutError(),
    lambda: RecursionError('deep'), lambda: Warning('w'),
    lambda: KeyError('hess'), lambda: IndexError('i'),
]
HISTS = {
    'accept': [(1.0, 'b', 'p'), (0.5, 'e', 'i'), (0.9, 'd', 'p'),
               (0.5, 'f', 'p')],
    'reject': [(-1.0, 'b', 'p'), (-1.0, 'a', 'p'), (0.5, 'e', 'q'),
               (-1.0, 'b', 'p')],
    'nan': [('nan', 'b', 'p'), (1.0, 'e', 'p'), ('inf', 'b', 'p'),
            ('nan', 'b', 'p')],
    'low': [('low', 'h', 'p'), (0.1, 'e', 'p'), ('low', 'h', 'b'),
            (1.0, 'b', 'p')],
    # gradient orthogonal to the eigenvectors of negative curvature
    'hard': [(1.0, 'c', 'k'), (0.9, 'c', 'k'), (1.0, 'z', 'k'),
             (-1.0, 'c', 'n')],
    'mix': [(5.0, 'c', 'n'), ('eq', 'e', 'p'), (0.5, 'a', '0'),
            ('-inf', 'b', 'p')],
}
UPD = [None, 'BFGS', 'SR1', 'DFP', 'BB', 'BG', 'Broyden:phi=0.5',
       'HybridFixed:switch_iteration=1', 'HybridFraction']
RUPD = [None, 'SSM', 'TSSM', 'GNSBFGS', 'FX']
COMBOS = [('2D', 'reflect'), ('full', 'mixed'), ('scg', 'truncate'),
          ('2D', 'reflect_single'), ('full', 'reflect'), ('scg', 'mixed')]
BOX = ['uu', 'bl', 'ZU', 'b', 'LUb']


def build(cfg, hist=None):
    lb, ub, x0 = box(cfg['ks'])
    p = Prob(lb, ub, x0, cfg['solver'], cfg['strat'], update=cfg['update'])
    opts = dict(loop.NOCONV, maxiter=4)
    if hist:
        opts['history_file'] = hist
    o, h = make(p.lb, p.ub, p.solver, p.strat,
                hess_update=approx(cfg['update']), resfun=cfg['res'], **opts)
    return p, o, h


def respond(cfg, p, k, x, snap, act):
    if not cfg['res']:
        a = answer(p, snap, x, act, k)
        return a if p.update is None or needs_hess(p.update) else a[:2]
    r, J = lsq.res(1 + k % 3, 3), lsq.jac(k % 3, 3, p.n)
    if k == 0:
        return 2 * r, J
    r = r / np.linalg.norm(r)
    rho = act[0] if not isinstance(act[0], str) else {
        'low': .01, 'eq': 0.0}.get(act[0], np.nan)
    return r * np.sqrt(2 * max(snap.f * (1 - .3 * rho), 0.0)), J


def drive(cfg, p, o, h, acts, at, exc, start_id):
    """like core.drive, but lets `exc` escape from evaluation `at`"""
    tr = {'x': [], 'snap': [], 'ret': None, 'exc': None}
    seq = ((1.0, 'a', 'p'),) + tuple(acts)

    def fun(x):
        k = len(tr['x'])
        tr['x'].append(np.array(x, copy=True))
        tr['snap'].append(Snap(o))
        if k == at:
            raise exc
        return respond(cfg, p, k, np.array(x, copy=True), tr['snap'][-1],
                       seq[min(k, len(seq) - 1)])

    h.target = fun
    try:
        tr['ret'] = o.minimize(p.x0.copy(), start_id=start_id)
    except BaseException as e:  # noqa: BLE001
        tr['exc'] = e
    tr['final'] = Snap(o)
    cleanup_logger(o)
    return tr


def same_snap(a, b):
    for n in ('x', 'f', 'g', 'H', 'delta', 'it', 'fm', 'xm', 'gm', 'ratio'):
        if n in ('xm', 'gm') and not np.isfinite(a.fm):
            continue
        if not eq(getattr(a, n), getattr(b, n)):
            return f'{n}: {getattr(a, n)!r} -> {getattr(b, n)!r}'
    return None


def groups(path):
    import h5py

    if not os.path.exists(path):
        return {}
    with h5py.File(path, 'r') as f:
        return {g: {k: repr(f[g][k][()].tolist()) for k in f[g]} for g in f}


def abort(cfg, hist, at, ie, pre, out, refs=None):
    case = {'cfg': cfg, 'hist': hist, 'at': at, 'exc': ie, 'pre': pre}
    exc = EXC[ie]()
    tag = f'{type(exc).__name__} at evaluation {at} of {hist}:'
    tmp = tempfile.mkdtemp(prefix='c24') if cfg['file'] else None
    try:
        path = os.path.join(tmp, 'h.h5') if tmp else None
        p, o, h = build(cfg, path)
        if pre:
            drive(cfg, p, o, h, HISTS['accept'], None, None, 'first')
        before = groups(path) if tmp else None
        tr = drive(cfg, p, o, h, HISTS[hist], at, exc, 'aborted')
        out.add('states')
        out.add('transitions', len(tr['x']))
        out.add('traces_validated_against_impl')
        if len(tr['x']) <= at:
            out.add('not_reached')
            return
        bad = None
        if tr['exc'] is not exc:
            bad = f'reached the caller as {tr["exc"]!r}'
        elif exc.__cause__ is not None or exc.__context__ is not None:
            bad = 'is chained to another exception'
        elif len(tr['x']) != at + 1:
            bad = f'objective was called again ({len(tr["x"])} evaluations)'
        elif tr['final'].conv:
            bad = 'run is reported as converged'
        elif tr['final'].flag.name != 'DID_NOT_RUN':
            bad = f'exit flag {tr["final"].flag!r}'
        else:
            bad = same_snap(tr['snap'][at], tr['final'])
            if bad:
                bad = 'state was modified, ' + bad
        if bad is None and tmp and groups(path) != before:
            bad = 'history file was modified'
        if bad is None:
            # the undisturbed run up to here
            refs = {} if refs is None else refs
            if hist not in refs:
                q, o2, h2 = build(cfg, None)
                refs[hist] = drive(cfg, q, o2, h2, HISTS[hist], None, None,
                                   None)
            ref = refs[hist]
            for k in range(at + 1):
                if not eq(ref['x'][k], tr['x'][k]):
                    bad = f'evaluation {k} differs from undisturbed run'
                    break
                d = same_snap(ref['snap'][k], tr['snap'][k]) if k > 1 else None
                if d:
                    bad = f'state differs from undisturbed run, {d}'
                    break
        if bad:
            out.violation(f'{tag} {bad}', case)
        elif not out.samples:
            out.sample({**case, 'points': tr['x']})
    finally:
        if tmp:
            shutil.rmtree(tmp)


# ------------------------------------------------------------ side effects
def world():
    from fides.constants import DEFAULT_OPTIONS

    st = np.random.get_state()
    root = logging.getLogger()
    return {
        'numpy error handling': dict(np.geterr()),
        'numpy error callback': repr(np.geterrcall()),
        'print options': repr(sorted(np.get_printoptions().items())),
        'numpy random state': (st[0], st[1].tolist(), st[2:]),
        'random state': random.getstate(),
        'warning filters': list(warnings.filters),
        'root logger': (root.level, list(root.handlers), root.disabled),
        'logging threshold': logging.root.manager.disable,
        'level names': (logging.getLevelName(10), logging.getLevelName(20),
                        logging.getLevelName(30)),
        'default options': repr(sorted(
            (str(k), repr(v)) for k, v in DEFAULT_OPTIONS.items())),
        'threads': threading.active_count(),
        'directory': (os.getcwd(), sorted(os.environ.items())),
        'recursion limit': sys.getrecursionlimit(),
        'signal handlers': [repr(signal.getsignal(s)) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        'garbage collection': (gc.isenabled(), gc.get_threshold(),
                               gc.get_debug(), gc.get_freeze_count() > 0),
        'switch interval': sys.getswitchinterval(),
        'logging': (logging.raiseExceptions, logging.getLoggerClass(),
                    logging.lastResort, logging.getLogRecordFactory()),
        'warnings': (warnings.showwarning, warnings.formatwarning),
        'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'path': list(sys.path),
        'locale': locale.setlocale(locale.LC_ALL),
        'open files': len(os.listdir('/proc/self/fd')),
        'folder for temporary files': tempfile.tempdir,
        'buffer size': np.getbufsize(),
        'hooks': (repr(sys.excepthook), repr(threading.excepthook),
                  repr(sys.gettrace()), repr(sys.getprofile())),
        'decimal context': repr(decimal.getcontext()),
        'other logger': (OTHER.level, list(OTHER.handlers), OTHER.propagate),
        'fides logger': (LIB.level, list(LIB.handlers), LIB.propagate,
                         LIB.disabled),
    }


# error handling of the caller
BASE = [dict(divide='warn', over='print', under='ignore', invalid='warn'),
        dict(divide='ignore', over='warn', under='warn', invalid='ignore')]


def ignore(*a):
    pass


@contextlib.contextmanager
def unusual(which):
    """process-wide settings of a caller that differ from the defaults (and
    from what an earlier run may have left)"""
    if not which:
        yield
        return
    po = np.get_printoptions()
    st, pst = np.random.get_state(), random.getstate()
    root = logging.getLogger()
    lv = (root.level, OTHER.level, LIB.level, root.manager.disable)
    rl, dc = sys.getrecursionlimit(), decimal.getcontext().copy()
    hooks = sys.excepthook, threading.excepthook
    sg = {s: signal.getsignal(s) for s in (signal.SIGALRM, signal.SIGTERM)}
    names = {i: logging.getLevelName(i) for i in (10, 20, 30)}
    cwd = os.getcwd()
    gt, si = gc.get_threshold(), sys.getswitchinterval()
    try:
        gc.enable()
        gc.set_threshold(gt[0] + 50, *gt[1:])
        sys.setswitchinterval(si * 2)
        np.set_printoptions(precision=11, threshold=77, linewidth=123,
                            suppress=True)
        np.random.seed(777)
        random.seed(777)
        root.setLevel(33)
        OTHER.setLevel(7)
        LIB.setLevel(44)
        logging.disable(3)
        for i in names:
            logging.addLevelName(i, f'L{i}')
        sys.setrecursionlimit(rl + 500)
        decimal.getcontext().prec = 17
        sys.excepthook = threading.excepthook = ignore
        os.environ['C24_VARIABLE'] = 'x'
        os.chdir(tempfile.gettempdir())
        yield
    finally:
        np.set_printoptions(**po)
        np.random.set_state(st)
        random.setstate(pst)
        root.setLevel(lv[0])
        OTHER.setLevel(lv[1])
        LIB.setLevel(lv[2])
        logging.disable(lv[3])
        for i, m in names.items():
            logging.addLevelName(i, m)
        sys.setrecursionlimit(rl)
        decimal.setcontext(dc)
        sys.excepthook, threading.excepthook = hooks
        os.environ.pop('C24_VARIABLE', None)
        os.chdir(cwd)
        gc.set_threshold(*gt)
        sys.setswitchinterval(si)
        for s, h in sg.items():
            signal.signal(s, h)


OTHER = logging.getLogger('c24_other')
LIB = logging.getLogger('fides')


def effects(cfg, hist, at, out, odd=True):
    # fides imports nothing lazily, but scipy and h5py may: warm up
    p, o, h = build(cfg)
    drive(cfg, p, o, h, HISTS[hist], None, None, 'warm')
    with unusual(odd):
        _effects(cfg, hist, at, out, odd)


def _effects(cfg, hist, at, out, odd):
    case = {'cfg': cfg, 'hist': hist, 'effects': at, 'unusual': odd}
    tmp = tempfile.mkdtemp(prefix='c24') if cfg['file'] else None
    try:
        old = np.geterr()
        try:
            np.seterr(**BASE[(at or 0) % 2])
            a = world()
            p, o, h = build(cfg, os.path.join(tmp, 'i.h5') if tmp else None)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                a['warning filters'] = list(warnings.filters)
                tr = drive(cfg, p, o, h, HISTS[hist], at, Custom('x'), 'run')
                b = world()
        finally:
            np.seterr(**old)
        out.add('states')
        out.add('transitions', len(tr['x']))
        out.add('traces_validated_against_impl')
        for k in a:
            if k == 'open files' and b[k] < a[k]:
                continue  # garbage was collected
            if a[k] != b[k]:
                out.violation(
                    f'{hist}/{at}: run changed {k}: {str(a[k])[:60]} -> '
                    f'{str(b[k])[:60]}', case)
                return
    finally:
        if tmp:
            shutil.rmtree(tmp)


def randomness(cfg, hist, out):
    """no dependence on the state of the random generators, error handling"""
    case = {'cfg': cfg, 'hist': hist, 'random': True}
    ref = None
    st, pst = np.random.get_state(), random.getstate()
    try:
        for seed in (0, 1, 2, 12345, 'ignore', 'warn'):
            old = np.geterr()
            try:
                if isinstance(seed, str):
                    np.seterr(all=seed)
                else:
                    np.random.seed(seed)
                    random.seed(seed)
                p, o, h = build(cfg)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tr = drive(cfg, p, o, h, HISTS[hist], None, None, 'x')
            finally:
                np.seterr(**old)
            out.add('traces_validated_against_impl')
            out.add('states')
            if ref is None:
                ref = tr
            elif len(ref['x']) != len(tr['x']) or not all(
                eq(a, b) for a, b in zip(ref['x'], tr['x'])
            ) or same_snap(ref['final'], tr['final']):
                out.violation(f'{hist}: run depends on global state ({seed})',
                              case)
                return
    finally:
        np.random.set_state(st)
        random.setstate(pst)


# ------------------------------------------------------------------- tasks
def configs(tier):
    k = 0
    for ks in BOX:
        for res, names in ((False, UPD), (True, RUPD)):
            for u in names:
                for f in (False, True):
                    cs = [COMBOS[k % 6]] if tier == 'quick' else COMBOS
                    k += 1
                    for so, st in cs:
                        yield dict(ks=ks, res=res, update=u, solver=so,
                                   strat=st, file=f)
    for so in ('2D', 'full'):
        yield dict(ks='LU', res=False, update=None, solver=so,
                   strat='refine', file=False)


def tasks(tier):
    return [(i, c, tier == 'quick') for i, c in enumerate(configs(tier))]


def work(task):
    i, cfg, quick = task
    refs = {}
    out = engine.Out()
    ref = cfg['strat'] == 'refine'
    for j, hist in enumerate(HISTS):
        if ref and j:
            break
        for at in range(5):
            effects(cfg, hist, at, out)
            for ie in range(len(EXC)):
                for pre in (False, True):
                    if quick and (i + ie + at + j + pre) % (
                            8 if cfg['file'] else 3):
                        continue
                    if ref and ie % 6:
                        continue
                    abort(cfg, hist, at, ie, pre, out, refs)
                    if len(out.viol) > 2:
                        return out
        effects(cfg, hist, None, out, False)
        effects(cfg, hist, None, out)
        randomness(cfg, hist, out)
    return out


def replay(c, out):
    if 'random' in c:
        randomness(c['cfg'], c['hist'], out)
    elif 'effects' in c:
        effects(c['cfg'], c['hist'], c['effects'], out, c['unusual'])
    else:
        abort(c['cfg'], c['hist'], c['at'], c['exc'], c['pre'], out)


__all__ = ['Holder', 'fl']
