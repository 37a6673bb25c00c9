"""C22: the log of a run against the observed trace."""

import itertools
import logging

import numpy as np

from .. import core, engine, loop
from ..core import COMBOS_FAST
from ..env import Facts, Prob, approx, run, undesc, _act
from ..spaces import box

PID = 'C22'
BOUNDS = {
    'quick': '3 boxes x 12 combinations x every action sequence of length 3 '
             'over 7 actions (accepted, rejected, equal, non-finite) at level '
             'INFO; every third at the other 4 levels; all reasons for '
             'stopping; runs of 25 and of '
             '10015 iterations; magnitudes from 1e-110 to 1e40; 3 approximations; maxiter from '
             '1 to 10^7 (column width)',
    'thorough': 'sequences of length 4, all levels',
}
LEVELS = (logging.DEBUG, logging.WARNING, logging.ERROR, logging.CRITICAL)
ALPHA = [(1.0, 'a', 'p'), (0.5, 'b', 'i'), (-1.0, 'e', 'p'), ('eq', 'd', 'p'),
         ('nan', 'a', 'p'), ('inf', 'a', 'p'), (0.01, 'h', 'q')]
# words of the message for each reason
WORDS = {
    'FTOL': ('function',), 'XTOL': ('step',), 'GTOL': ('gradient',),
    'MAXITER': ('iterations',), 'MAXTIME': ('runtime', 'time'),
    'DELTA_TOO_SMALL': ('radius',),
}
BUDGET = ('MAXITER', 'MAXTIME', 'DELTA_TOO_SMALL')


class Grab(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for ks in ('uu', 'bZ', 'LU'):
        for so, st in COMBOS_FAST:
            out.append(('seq', ks, so, st, 3 if quick else 4, quick))
    out.append(('long',))
    out.append(('verylong', 'b'))
    out.append(('verylong', 'u'))
    stop = [('stop', lv, c) for lv in (logging.INFO,) + LEVELS
            for c in (('2D', 'reflect'), ('scg', 'mixed'),
                      ('full', 'truncate'))]
    for c in ('1e-110', '1e-60', '1e-30', '1e40'):
        out.append(('size', c))
    return stop + out


def observe(p, acts, level, maxiter, hook=None):
    """trace and log records of one run"""
    opts = dict(p.opts)
    opts['maxiter'] = maxiter
    o, h = core.make(p.lb, p.ub, p.solver, p.strat, verbose=level,
                     hess_update=approx(p.update), **opts)
    grab = Grab()

    def hk(k, x, snap, ans):
        if k == 0:
            for hd in list(o.logger.handlers):
                o.logger.removeHandler(hd)
            o.logger.addHandler(grab)
            o.logger.propagate = False
        if hook:
            hook(k)

    tr = run(p, acts, hook=hk, opt_holder=(o, h))
    return tr, grab.records


def near(text, want, digits):
    try:
        got = float(text)
    except ValueError:
        return False
    if np.isnan(want) or np.isnan(got):
        return bool(np.isnan(want) and np.isnan(got))
    if np.isinf(want) or np.isinf(got):
        return got == want
    return abs(got - want) <= 0.51 * 10.0 ** -digits * 10.0 ** np.floor(
        np.log10(max(abs(want), abs(got), 1e-300))) + 1e-300


def inside(text, iv, digits):
    """printed number is a rounding of some number in the interval"""
    try:
        got = float(text)
    except ValueError:
        return False
    ulp = 0.51 * 10.0 ** -digits * 10.0 ** np.floor(
        np.log10(max(abs(got), abs(iv[0]), abs(iv[1]), 1e-300)))
    return iv[0] - ulp <= got <= iv[1] + ulp


def problem(p, tr, recs, level):
    """None or what is wrong"""
    low = [r for r in recs if r[0] < level]
    if low:
        return f'message below the level: {low[0]}'
    rows = [[c.strip() for c in m.split('|')] for lv, m in recs
            if m.count('|') >= 8]
    rows = [r for r in rows if r[0].isdigit()]
    stops = [(lv, m) for lv, m in recs if m.startswith('Stopping')]
    flag = tr.final.flag
    name = getattr(flag, 'name', '?')
    if tr.exc is not None:
        if stops:
            return f'run failed, but log says {stops}'
    else:
        vis = level <= (logging.WARNING if name in BUDGET else logging.INFO)
        if len(stops) != int(vis):
            return f'{len(stops)} stopping messages for {name} at {level}'
        if vis:
            lv, m = stops[0]
            if not any(w in m for w in WORDS[name]) or any(
                    w in m for k, ws in WORDS.items() for w in ws
                    if k != name and w not in WORDS[name]
                    and not (name == 'MAXTIME' and k == 'MAXITER')):
                return f'flag {name}, but log says {m!r}'
            if (lv >= logging.WARNING) != (name in BUDGET):
                return f'level {lv} for {m!r}'
    if level > logging.INFO:
        other = [r for r in recs if r[0] < logging.WARNING]
        if other or rows:
            return f'{other or rows} at level {level}'
        return None
    done = len(tr.calls) - 1
    if tr.exc is not None:
        done -= 1
        if not tr.calls or not np.isfinite(tr.calls[0][1][0]):
            done = 0
    if [int(r[0]) for r in rows] != list(range(done + 1)):
        return f'lines of iterations {[r[0] for r in rows]} after {done}'
    x0, a0 = tr.calls[0]
    r = rows[0]
    if not near(r[1], a0[0], 2):
        return f'initial value {r[1]} instead of {a0[0]}'
    if not near(r[4], p.opt('delta_init'), 1):
        return f'initial radius {r[4]}'
    if not near(r[5], np.linalg.norm(a0[1]), 1):
        return f'initial gradient norm {r[5]}'
    steps = tr.steps
    for k in range(1, done + 1):
        r, st = rows[k], steps[k - 1]
        fa = Facts(p, st)
        f1, f0 = st.ans[0], st.pre.f
        acc = bool(np.array_equal(st.post.g, st.ans[1])
                   and st.post.f == f1 and fa.accept is not False)
        if r[8] not in '01' or (fa.accept is not None
                                and (r[8] == '1') != fa.accept):
            return f'iteration {k}: acceptance {r[8]} instead of {fa.accept}'
        if fa.accept is None:
            acc = r[8] == '1'
        if not near(r[1], f1 if acc else f0, 2):
            return f'iteration {k}: value {r[1]}, not {f1 if acc else f0}'
        diff = f1 - f0 if np.isfinite(f1) else 0.0
        if not near(r[2], diff, 1):
            return f'iteration {k}: change {r[2]} instead of {diff}'
        if fa.ratio is not None:
            if not inside(r[3], fa.ratio, 1):
                return f'iteration {k}: ratio {r[3]} instead of {fa.ratio}'
        elif not fa.finite and float(r[3]) != 0:
            return f'iteration {k}: ratio {r[3]} of non-finite value'
        if not near(r[4], st.pre.delta, 1):
            return f'iteration {k}: radius {r[4]} not {st.pre.delta}'
        gn = np.linalg.norm(st.pre.g)
        if not near(r[5], gn, 1):
            return f'iteration {k}: gradient norm {r[5]} not {gn}'
        sn = np.linalg.norm(st.xt - st.pre.x)
        e = 4 * np.linalg.norm(np.spacing(np.abs(st.pre.x))) + 1e-14 * sn
        if not inside(r[6], (sn - e, sn + e), 1):
            return f'iteration {k}: step length {r[6]} not {sn}'
    return None


def judge(p, acts, level, maxiter, out, hook=None, extra=None):
    tr, recs = observe(p, acts, level, maxiter, hook)
    out.add('traces_validated_against_impl')
    out.add('states', len(tr.calls))
    out.add('transitions', max(0, len(tr.calls) - 1))
    out.add('log_records', len(recs))
    out.add('exits_' + getattr(tr.final.flag, 'name', '?'))
    case = {'prob': p.desc(), 'acts': acts, 'level': level,
            'maxiter': maxiter, **(extra or {})}
    bad = problem(p, tr, recs, level)
    if bad:
        out.violation(f'{bad} [level {level}]', case)
    elif not out.samples and len(recs) > 3:
        out.sample({**case, 'log': [m for _, m in recs]})
    return tr


def timed(p, acts, level, maxiter, out, secs):
    core.clock.now = 1000.0
    core.clock.active = True

    def hook(k):
        core.clock.now += secs

    try:
        judge(p, acts, level, maxiter, out, hook, {'secs': secs})
    finally:
        core.clock.active = False


def work(task):
    out = engine.Out()
    if task[0] == 'seq':
        _, ks, so, st, d, quick = task
        lb, ub, x0 = box(ks)
        p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), **loop.NOCONV)
        for i, s in enumerate(itertools.product(ALPHA, repeat=d)):
            judge(p, s, logging.INFO, d, out)
            for j, lv in enumerate(LEVELS):
                if not quick or (i + j) % 12 == 0:
                    judge(p, s, lv, d, out)
            if len(out.viol) > 3:
                break
        return out
    if task[0] == 'size':
        # extreme magnitudes of values and derivatives
        c = task[1]
        for ks in ('uu', 'bZ', 'b'):
            lb, ub, x0 = box(ks)
            for h in ('0', 'p*' + c, 'p'):
                p = Prob(lb, ub, x0, init=(0.0, 'a*' + c, h), **loop.NOCONV)
                al = [(r, g + '*' + c, h) for r in (1.0, 0.5, -1.0, 0.01, 3.0)
                      for g in 'ae']
                for s in itertools.product(al, repeat=3):
                    judge(p, s, logging.INFO, 3, out)
                if len(out.viol) > 3:
                    return out
        return out
    if task[0] == 'verylong':
        # more iterations than there are digits in the usual column
        lb, ub, x0 = box(task[1])
        p = Prob(lb, ub, x0, init=(1.0, 'a', 'p'), delta_init=1e-3,
                 **loop.NOCONV)
        n = 10015
        acts = [(0.5, 'a', 'p'), (0.5, 'b', 'p')] * (n // 2 + 1)
        tr = judge(p, acts[:n], logging.INFO, n, out)
        if tr.exc is None and tr.final.it < n and not out.viol:
            out.violation(f'run ended after {tr.final.it} iterations',
                          {'verylong': task[1]})
        return out
    if task[0] == 'long':
        for ks in ('uu', 'bZ', 'b', 'bLU'):
            lb, ub, x0 = box(ks)
            for upd in (None, 'BFGS', 'SR1', 'HybridFixed'):
                for init in ((1e-8, 'a', 'p'), (-1e30, 'h', 'b')):
                    p = Prob(lb, ub, x0, init=init, update=upd,
                             **loop.NOCONV)
                    for seq in (ALPHA[:1], ALPHA[:3], ALPHA[2:5], ALPHA):
                        judge(p, tuple(seq * 25)[:25], logging.INFO, 25, out)
        return out
    lb, ub, x0 = box('bZ')
    for lv in (task[1],):
        for so, st in (task[2],):
            base = dict(loop.NOCONV)
            for o in ({'fatol': 1e3}, {'frtol': 10.0}, {'xtol': 10.0},
                      {'gatol': 1e3}, {'grtol': 1e3}, {}):
                for s in itertools.product(ALPHA, repeat=2):
                    p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'),
                             **{**base, **o})
                    for m in (2, 10**7):
                        if m > 2:
                            # ends as the radius gets too small
                            s = s + (('nan', 'a', 'p'),) * 40
                        judge(p, s, lv, m, out)
            # non-finite start / derivatives
            for init, s in ((('nan', 'a', 'p'), ()), ((1.0, 'nan', 'p'), ()),
                            ((1.0, 'a', 'p'), (ALPHA[0], (1.0, 'nan', 'p'))),
                            ((1.0, 'a', 'p'), (ALPHA[0], (1.0, 'a', 'inf')))):
                if init[0] == 'nan':
                    init = (float('nan'),) + init[1:]
                p = Prob(lb, ub, x0, so, st, init=init, **base)
                tr, recs = observe(p, s, lv, 5)
                out.add('traces_validated_against_impl')
                if any(m.startswith('Stopping') for _, m in recs) or any(
                        r[0] < lv for r in recs):
                    out.violation(f'log of failed run: {recs}',
                                  {'prob': p.desc(), 'acts': s, 'level': lv,
                                   'maxiter': 5})
            for mt, secs in ((3.5, 1.0), (7.5, 2.0), (0.5, 1.0)):
                p = Prob(lb, ub, x0, so, st, init=(1.0, 'a', 'p'), maxtime=mt,
                         **base)
                timed(p, (ALPHA[0],) * 8, lv, 8, out, secs)
    return out


def replay(c, out):
    if 'verylong' in c:
        out.viol += work(('verylong', c['verylong'])).viol
        return
    p = undesc(c['prob'])
    acts = [_act(a) for a in c['acts']]
    if 'secs' in c:
        return timed(p, acts, c['level'], c['maxiter'], out, float(c['secs']))
    judge(p, acts, c['level'], c['maxiter'], out)


