"""C15: runs on a used optimizer equal runs on a fresh one; inputs are left
unmodified; integer valued inputs equal floating point ones."""

import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import engine, loop, lsq
from ..core import SILENT, _c, drive, fl, make
from ..env import Prob, answer, approx, needs_hess
from ..spaces import box
from ..tracecmp import diff, eq

PID = 'C15'
BOUNDS = {
    'quick': 'all sequences of <= 2 earlier runs over 10 kinds of runs '
             '(converged, budget, rejected, non-finite value/derivative, '
             'exception, start out of bounds, wrong shape, ...) followed by '
             '3 kinds of runs; failing runs (6 kinds) after every '
             'kind of run; all ordered pairs of 4 kinds of 40-iteration '
             'runs (also after failed runs); 12 configurations with objective values, 7 in '
             'residual mode; reuse of approximation objects; read-only '
             'inputs; history groups; starts at'
             ' points of the run before; integer inputs over a lattice; '
             'outputs of 11 numeric types',
    'thorough': 'all sequences of 3 earlier runs, more boxes and solvers',
}
UPD = [None, 'BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden:phi=0.5',
       'HybridFixed:switch_iteration=2', 'HybridFixed:switch_iteration=1',
       'HybridFraction', 'BFGS:enforce_curv_cond=False']
RUPD = [None, 'SSM', 'TSSM', 'GNSBFGS', 'FX', 'SSM:phi=1.0',
        'GNSBFGS:hybrid_tol=0.5']
MAXIT = 5
LONG = 40
# long runs: (value answers repeat with these ratios)
LKINDS = {'lsame': [0.5, 0.6], 'lmix': [0.5, 0.9, 0.5, 0.1],
          'lgrow': [0.9, 1.1], 'lrej': [-1.0, 0.5]}
KINDS = ['budget', 'conv', 'ptt', 'reject', 'nanv', 'nan0', 'nang', 'exc',
         'oob', 'shape']
FINAL = ['budget', 'ptt', 'conv']
# runs that fail: number of evaluations, exception and flag are compared
# (a best point before the first value is not specified)
FAILS = ['exc0', 'oob', 'shape', 'nan0', 'exc', 'nang']


class Boom(Exception):
    pass


# direct mode: kind -> (x0 offset, initial answer, actions)
def plan(kind):
    if kind in LKINDS:
        r = LKINDS[kind]
        return (1.0, 'a', 'p'), [
            (r[k % len(r)], 'bdae'[k % 4], 'pib'[k % 3]) for k in range(LONG)]
    a = {
        'budget': [(1.0, 'b', 'i'), (0.5, 'd', 'p'), (-1.0, 'a', 'p'),
                   (0.1, 'e', 'b'), (1.0, 'a', 'p')],
        'conv': [(1.0, 'b', 'p'), (0.4, 's', 'p')],
        'ptt': [(0.5, 'e', 'p'), (0.5, 'b', 'i'), (0.5, 'a', 'p'),
                (0.4, 'd', 'q'), (0.5, 'f', 'p')],
        'reject': [(-1.0, 'b', 'p')] * 5,
        'nanv': [('nan', 'b', 'p'), ('inf', 'b', 'p'), ('nan', 'b', 'p'),
                 (1.0, 'e', 'p'), ('nan', 'b', 'p')],
        'nang': [(1.0, 'b', 'p'), (1.0, 'nan', 'p')],
        'exc': [(1.0, 'b', 'p'), (0.5, 'e', 'p'), 'boom'],
        'nan0': [(1.0, 'b', 'p')],
        'exc0': [],
        'oob': [(1.0, 'b', 'p')],
        'shape': [(1.0, 'b', 'p')],
    }[kind]
    init = ('nan', 'a', 'p') if kind == 'nan0' else (1.0, 'a', 'p')
    return init, a


RPLAN = {
    'budget': [(1, 1, .5), (0, 2, .2), (2, 0, -.5), (3, 1, .1), (2, 3, .3)],
    'conv': [(1, 1, .5), (6, 2, 1.0)],
    'ptt': [(2, 1, .1), (1, 2, .1), (0, 3, .05), (3, 0, .1), (1, 1, .05)],
    'reject': [(2, 1, -.5)] * 5,
    'nanv': [(2, 1, np.nan), (2, 1, np.nan), (1, 2, .3), (1, 1, np.nan),
             (0, 0, .1)],
    'nang': [(1, 1, .5), (1, 'nan', .5)],
    'exc': [(1, 1, .5), (2, 2, .1), 'boom'],
    'nan0': [(1, 1, .5)],
    'oob': [(1, 1, .5)],
    'shape': [(1, 1, .5)],
}
M = 3


def envof(cfg, kind, prob):
    init, acts = plan(kind)
    res = cfg['res']
    rp = RPLAN.get(kind)
    if kind in LKINDS:
        q = LKINDS[kind]
        rp = [(k % 3, (k + 1) % 3, 0.1 * q[k % len(q)]) for k in range(LONG)]

    def env(k, x, snap):
        if kind == 'exc0':
            raise Boom()
        if k > 0:
            a = (rp if res else acts)
            a = a[min(k - 1, len(a) - 1)]
            if a == 'boom':
                raise Boom()
        if not res:
            ans = answer(prob, snap, x, init if k == 0 else a, k)
            if prob.update is not None and not needs_hess(prob.update):
                ans = ans[:2]
            if kind == 'shape':
                ans = (ans[0], np.ones(prob.n + 1)) + tuple(ans[2:])
            return ans
        if k == 0:
            r = 2 * lsq.res(1, M)
            if kind == 'nan0':
                r[0] = np.nan
            J = lsq.jac(0, M, prob.n)
            if kind == 'shape':
                J = J[:, :0]
            return r, J
        r = lsq.res(a[0], M)
        n = np.linalg.norm(r)
        r = r / n if n > 0 else r
        if np.isnan(a[2]):
            r = r * np.nan
        else:
            r = r * np.sqrt(2 * max(snap.f * (1 - a[2]), 0.0))
        J = lsq.jac(1 if a[1] == 'nan' else a[1], M, prob.n)
        if a[1] == 'nan':
            J[0, 0] = np.nan
        return r, J

    return env


def build(cfg, happ=None, hist=None, ro=False):
    lb, ub, _ = box(cfg['ks'])
    opts = {'maxiter': MAXIT}
    if cfg.get('long'):
        opts.update(loop.NOCONV, maxiter=LONG, delta_init=0.05)
    if hist:
        opts['history_file'] = hist
    lb, ub = np.array(lb, float), np.array(ub, float)
    o, h = make(lb, ub, cfg['solver'], cfg['strat'],
                hess_update=happ if happ is not None
                else approx(cfg['update']), resfun=cfg['res'], **opts)
    return o, h


def prob_of(cfg):
    lb, ub, x0 = box(cfg['ks'])
    return Prob(lb, ub, x0, cfg['solver'], cfg['strat'],
                update=cfg['update'])


def hess0_of(cfg, idx):
    n = len(cfg['ks'])
    if cfg['hess0'] == 'mat':
        return (1.0 + idx) * np.eye(n) + 0.25
    return cfg['hess0']


def one(cfg, oh, kind, idx, prob, start_id=None, x0=None):
    given = x0 is not None
    x0 = (x0 if given else prob.x0).copy()
    if kind == 'oob':
        x0[0] = prob.lb[0] - 1 if np.isfinite(prob.lb[0]) else np.nan
    elif idx and not given:
        x0 = x0 * (1 - 0.1 * idx)
    h0 = hess0_of(cfg, idx)
    keep = (x0.copy(), _c(h0) if isinstance(h0, np.ndarray) else None)
    x0.setflags(write=False)
    if isinstance(h0, np.ndarray):
        h0.setflags(write=False)
    tr = drive(oh[0], x0, envof(cfg, kind, prob), hess0=h0, holder=oh[1],
               start_id=start_id)
    bad = None
    if not np.array_equal(x0, keep[0], equal_nan=True):
        bad = 'start was modified'
    if keep[1] is not None and not np.array_equal(h0, keep[1]):
        bad = 'initial Hessian was modified'
    return tr, bad


# the next run starts at a point of the run before
RESTART = ['last', 'returned', 'first', 'before_last']


def restart(mode, tr, prob):
    pts = [c[0] for c in tr.calls]
    if mode == 'returned':
        return np.array(tr.ret[1] if tr.ret is not None else prob.x0, float)
    k = {'last': -1, 'first': 0, 'before_last': -2}[mode]
    ok = len(pts) >= max(abs(k), 1) and np.all(np.isfinite(pts[k]))
    return np.array(pts[k] if ok else prob.x0, float)


def rets(tr):
    return None if tr.ret is None else [_c(np.asarray(a)) for a in tr.ret]


def seqcase(cfg, kinds, out, mode='opt', cache=None):
    prob = prob_of(cfg)
    case = {'cfg': cfg, 'kinds': kinds, 'mode': mode}
    tag = f'{cfg["update"]}{"/res" if cfg["res"] else ""} {kinds} {mode}'
    tmp = None
    try:
        hist = None
        if mode == 'hist':
            tmp = tempfile.mkdtemp(prefix='c15')
            hist = os.path.join(tmp, 'a.h5')
        happ = approx(cfg['update']) if mode == 'happ' else None
        oh = build(cfg, happ, hist)
        lb0, ub0 = oh[0].lb.copy(), oh[0].ub.copy()
        opts0 = dict(oh[0].options)
        olds, x0 = [], None
        for i, k in enumerate(kinds):
            if mode == 'happ' and i > 0:
                oh = build(cfg, happ)
            if i and mode in RESTART:
                x0 = restart(mode, tr, prob)
            tr, bad = one(cfg, oh, k, i, prob, f'run{i}', x0)
            out.add('traces_validated_against_impl')
            out.add('transitions', len(tr.calls))
            if bad is None and not (
                np.array_equal(lb0, oh[0].lb) and np.array_equal(
                    ub0, oh[0].ub) and opts0 == dict(oh[0].options)
            ):
                bad = 'bounds or options were modified'
            for j, (old, new) in enumerate(olds):
                if old is not None and not all(
                    eq(a, np.asarray(b)) for a, b in zip(old, new)
                ):
                    bad = bad or f'result of run {j} changed by run {i}'
            olds.append((rets(tr), tr.ret))
            if bad:
                out.violation(f'{tag}: {bad}', case)
                return
        key = (kinds[-1], len(kinds), mode == 'hist')
        ref = cache.get(key) if cache is not None and x0 is None else None
        if ref is None:
            rh = os.path.join(tmp, 'b.h5') if tmp else None
            fr = build(cfg, None, rh)
            ref, _ = one(cfg, fr, kinds[-1], len(kinds) - 1, prob, 'ref',
                         x0)
            ref.hist = readh(rh, 'ref') if tmp else None
            out.add('traces_validated_against_impl')
            if cache is not None and x0 is None:
                cache[key] = ref
        d = faildiff(ref, tr) if kinds[-1] in FAILS else diff(ref, tr)
        if d is None and tmp:
            hh = readh(hist, f'run{len(kinds) - 1}')
            if ref.hist is None or hh is None:
                d = None if ref.hist is hh else 'history group missing'
            elif sorted(hh) != sorted(ref.hist):
                d = f'history series {sorted(hh)} vs {sorted(ref.hist)}'
            else:
                for k in hh:
                    if not samehist(hh[k], ref.hist[k]):
                        d = f'history {k}: {ref.hist[k]} vs {hh[k]}'
        if d:
            out.violation(f'{tag}: last run differs from fresh run: {d}',
                          case)
        elif not out.samples:
            out.sample({**case, 'flag': getattr(tr.final.flag, 'name', '?'),
                        'points': [c[0] for c in tr.calls]})
    finally:
        if tmp:
            shutil.rmtree(tmp)


def faildiff(a, b):
    if len(a.calls) != len(b.calls) or not all(
            eq(x, y) for (x, _), (y, _) in zip(a.calls, b.calls)):
        return f'evaluated points {a.calls} vs {b.calls}'
    if type(a.exc) is not type(b.exc):
        return f'{a.exc!r} vs {b.exc!r}'
    if a.final.flag != b.final.flag:
        return f'flag {a.final.flag!r} vs {b.final.flag!r}'


def samehist(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def readh(path, group):
    import h5py

    if not os.path.exists(path):
        return None
    with h5py.File(path, 'r') as f:
        if group not in f:
            return None
        return {k: np.array(v[()]) for k, v in f[group].items()}


# ---------------------------------------------------------------- integers
FI = [10, 9, 7, 12]
GI = [[1, -2], [-3, 1], [0, 2]]
HI = [[[2, 1], [1, 3]], [[1, 2], [2, -1]]]


def intcase(c, out):
    """same run with integers and with floats"""
    which, acts, upd, h0, so, st, x0 = c
    lb = np.array([-4, 0])
    ub = np.array([5, 6])
    x0 = np.array(x0)
    H0 = None if h0 is None else np.array([[2, 0], [0, 3]])
    trs = []
    for isint in (False, True):
        def cv(a, name):
            a = np.array(a)
            if isint and (which == 'all' or name in which):
                return a
            return a.astype(float)

        def env(k, x, snap):
            f, g, H = acts[min(k, len(acts) - 1)]
            f = FI[f]
            if not (isint and (which == 'all' or 'f' in which)):
                f = float(f)
            elif c[6][0] == 1:
                f = np.int64(f)
            r = (f, cv(GI[g], 'g'), cv(HI[H], 'H'))
            if upd is not None and not needs_hess(upd):
                return r[:2]
            return r

        from ..core import Holder
        from fides import Optimizer, Options, StepBackStrategy, SubSpaceDim

        h = Holder()
        o = Optimizer(
            h, ub=cv(ub, 'b'), lb=cv(lb, 'b'), verbose=SILENT,
            hessian_update=approx(upd),
            options={Options.SUBSPACE_DIM: SubSpaceDim(so),
                     Options.STEPBACK_STRAT: StepBackStrategy(st),
                     Options.MAXITER: len(acts) + 1})
        trs.append(drive(o, cv(x0, 'x'), env, hess0=None if H0 is None
                         else cv(H0, 'h'), holder=h))
    out.add('traces_validated_against_impl', 2)
    out.add('int_pairs')
    d = diff(*trs)
    if d:
        out.violation(f'integer inputs ({which}) change the run: {d}',
                      {'int': c})


# every type that represents the values; differences and products leave the
# range of the small and of the unsigned ones
DTYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64',
          'uint64', 'float16', 'float32', 'bool']
FD = [100, 90, 120, 60]
GD = [[100, -90], [-120, 70], [3, 100]]
HD = [[[100, 20], [20, 120]], [[90, -100], [-100, 2]], [[1, 0], [0, 2]]]


def dtcase(c, out):
    """same run with outputs of some type and with floats"""
    dt, which, acts, upd, so, st, x0 = c
    trs = []
    for typed in (False, True):
        def cv(a, name):
            a = np.array(a, float)
            if dt == 'bool':
                a = (a > (60 if name in 'fgH' else 0)).astype(float)
            elif dt[0] == 'u':
                a = np.abs(a)
            if typed and name in which:
                a = a.astype(dt)
            return a[()]

        def env(k, x, snap):
            f, g, H = acts[min(k, len(acts) - 1)]
            r = (cv(FD[f], 'f'), cv(GD[g], 'g'), cv(HD[H], 'H'))
            if upd is not None and not needs_hess(upd):
                return r[:2]
            return r

        from ..core import make

        o, h = make(cv([-4.0, 0.0] if dt[0] not in 'ub' else [0, 0], 'b'),
                    cv([5.0, 126.0], 'b'), so, st,
                    hess_update=approx(upd), maxiter=len(acts) + 1)
        trs.append(drive(o, cv(x0, 'x'), env, holder=h,
                         hess0=None if upd is None else cv(HD[0], 'h')))
    out.add('traces_validated_against_impl', 2)
    out.add('dtype_pairs')
    d = diff(*trs)
    if d:
        out.violation(f'outputs {which} of type {dt} change the run: {d}',
                      {'dt': c})


# ------------------------------------------------------------------- tasks
def configs(tier):
    quick = tier == 'quick'
    out = []
    combos = [('2D', 'reflect'), ('full', 'mixed'), ('scg', 'truncate')]
    boxes = ['bl', 'uu'] if quick else ['bl', 'uu', 'ZU', 'b', 'uuu']
    for i, ks in enumerate(boxes):
        for res, names in ((False, UPD), (True, RUPD)):
            for j, u in enumerate(names):
                cs = [combos[(i + j) % 3]] if quick else combos
                for so, st in cs:
                    for h0 in ([None, 'mat', 'hess'] if u else [None]):
                        if h0 == 'hess' and not (res or needs_hess(u)):
                            continue
                        out.append(dict(ks=ks, res=res, update=u, solver=so,
                                        strat=st, hess0=h0))
    return out


def tasks(tier):
    out = []
    L = 2 if tier == 'quick' else 3
    for cfg in configs(tier):
        for fin in FINAL:
            out.append(('seq', cfg, fin, L, 'opt'))
        for fin in FAILS:
            out.append(('seq', cfg, fin, 1 if tier == 'quick' else 2, 'opt'))
        if cfg['update']:
            out.append(('seq', cfg, 'budget', 1, 'happ'))
            out.append(('seq', cfg, 'ptt', 1, 'happ'))
        out.append(('seq', cfg, 'budget', 1, 'hist'))
        for mode in RESTART:
            out.append(('seq', cfg, 'budget', 1 if tier == 'quick' else 2,
                        mode))
    for cfg in configs(tier):
        if cfg['hess0'] is None:
            cfg = {**cfg, 'long': True}
            for mode in ('opt', 'happ') if cfg['update'] else ('opt',):
                out.append(('long', cfg, mode))
    al = list(itertools.product(range(len(FI)), range(2), range(2)))
    for upd in (None, 'BFGS', 'SR1', 'BB', 'HybridFixed:switch_iteration=1'):
        for so, st in [('2D', 'reflect'), ('full', 'mixed'),
                       ('scg', 'truncate'), ('2D', 'refine')]:
            if st == 'refine' and upd and tier == 'quick':
                continue
            out.append(('int', upd, so, st, tier == 'quick'))
            out.append(('dt', upd, so, st, tier == 'quick'))
    return out


def work(task):
    out = engine.Out()
    if task[0] == 'seq':
        _, cfg, fin, L, mode = task
        cache = {}
        for n in range(0, L + 1):
            for pre in itertools.product(KINDS, repeat=n):
                seqcase(cfg, pre + (fin,), out, mode, cache)
                out.add('states')
                if len(out.viol) > 2:
                    return out
    elif task[0] == 'long':
        _, cfg, mode = task
        cache = {}
        for ks in itertools.product((*LKINDS, 'exc', 'nang'), LKINDS):
            seqcase(cfg, ks, out, mode, cache)
            out.add('states')
            if len(out.viol) > 2:
                return out
    elif task[0] == 'dt':
        _, upd, so, st, quick = task
        seqs = [((0, 0, 0), (f, g, H), (f2, g2, 0), (3, 1, 2))
                for f, g, H in itertools.product(range(1, 4), range(3),
                                                 range(3))
                for f2, g2 in ((2, 1), (3, 2))]
        step = 1 if not quick else 9 if st != 'refine' else 27
        for k, (dt, which) in enumerate(itertools.product(
                DTYPES, ('f', 'g', 'H', 'fg', 'fgH', 'x', 'b', 'h', 'xb'))):
            for acts in seqs[k % step::step]:
                for x0 in ([1, 2], [5, 100]):
                    dtcase((dt, which, acts, upd, so, st, x0), out)
                    out.add('states')
                    if len(out.viol) > 2:
                        return out
    else:
        _, upd, so, st, quick = task
        seqs = [((0, 0, 0), (f, g, H), (f2, g2, 0))
                for f, g, H in itertools.product(range(1, 4), range(3),
                                                 range(2))
                for f2, g2 in ((2, 1), (3, 2), (2, 2))]
        for acts in seqs[::3 if st != 'refine' else 14] if quick else seqs:
            for which in ('all', 'x', 'b', 'f', 'g', 'H', 'h', 'xb', 'gH'):
                for h0 in ((None, 'm') if upd else (None,)):
                    for x0 in ([1, 2], [-4, 6], [5, 1]):
                        intcase((which, acts, upd, h0, so, st, x0), out)
                        out.add('states')
                        if len(out.viol) > 2:
                            return out
    return out


def replay(c, out):
    if 'dt' in c:
        dt, w, acts, upd, so, st, x0 = c['dt']
        return dtcase((dt, w, [tuple(a) for a in acts], upd, so, st, x0),
                      out)
    if 'int' in c:
        w, acts, upd, h0, so, st, x0 = c['int']
        return intcase((w, [tuple(a) for a in acts], upd, h0, so, st, x0),
                       out)
    seqcase(c['cfg'], tuple(c['kinds']), out, c['mode'])
