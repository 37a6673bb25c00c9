"""C19: history file vs observed trace; history and verbosity are passive."""

import io
import itertools
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np

from .. import engine
from ..core import COMBOS, Quad, drive, make
from ..env import Facts, Prob, _act, answer, approx, close_x, default_opt, run
from ..env import needs_hess
from ..spaces import box
from ..tracecmp import diff, eq

PID = 'C19'
BOUNDS = {
    'quick': 'contents: all sequences of 3 answers over 8 actions (incl. '
             'rejected, non-finite, equal, large), 5 boxes, exact Hessians, '
             '7 secant and hybrid schemes, 5 residual schemes, all '
             'solver/strategy pairs; runs of 130 and 1100 '
             'iterations; files: all sequences of 3 runs over 7 '
             'kinds (normal, short, no iteration, exception, out of bounds) '
             'x same / different optimizers x 8 styles of identifiers, also '
             'into a file with foreign content; runs nested in the objective '
             'at every evaluation of 3-answer sequences; passivity: 6 verbosity '
             'levels x history on/off on all sequences of 2-3 answers',
    'thorough': 'sequences of 4 answers, 4 runs',
}
ACT = [(1.0, 'b', 'p'), (-1.0, 'e', 'p'), ('nan', 'a', 'p'), (0.6, 'e', 'i'),
       (0.1, 'd', 'q'), ('eq', 'b', 'p'), ('inf', 'a', 'p'), (3.0, 'a', 'b')]
BOXES = ['u', 'B', 'uu', 'bl', 'Zb']
UPD = ['BFGS', 'SR1', 'BB', 'HybridFixed:switch_iteration=1',
       'HybridFraction', 'Broyden:phi=0.5', 'BFGS:enforce_curv_cond=False']
RES = [None, 'SSM', 'TSSM', 'GNSBFGS', 'FX']
OPTS = dict(fatol=0.0, frtol=0.0, gatol=0.0, grtol=0.0)
TYPES = {b'nd', b'2d', b'cg', b'cgs', b'g', b'trr', b'trt', b'ref'}


def quiet(f):
    """run f with a stand-in for stderr (log messages of fides go there)"""
    old = sys.stderr
    sys.stderr = io.StringIO()
    try:
        return f(), sys.stderr.getvalue()
    finally:
        sys.stderr = old


def read(path):
    """{group: {series: array}}"""
    out = {}
    with h5py.File(path, 'r') as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Group):
                out.setdefault(name, {})
            else:
                g, _, s = name.rpartition('/')
                out.setdefault(g, {})[s] = obj[()]
        f.visititems(visit)
    return out


def rclose(a, b, tol):
    return (a == b or (np.isnan(a) and np.isnan(b))
            or abs(a - b) <= tol * (1e-300 + max(abs(a), abs(b))))


def contents(prob, tr, series, has_update, structured, tag):
    """yields messages: series vs the observed run"""
    N = len(tr.steps)
    need = ['fval', 'tr_ratio', 'tr_radius', 'normgrad', 'normstep', 'theta',
            'alpha', 'reflections', 'truncations', 'accept', 'hess_min_ev',
            'hess_max_ev', 'hess_update_min_ev', 'hess_update_max_ev',
            'hess_struct_update_min_ev', 'hess_struct_update_max_ev',
            'iterations_since_tr_update', 'step_type', 'subspace_dim',
            'posdef', 'newton', 'cond_hess', 'cond_shess']
    if N == 0:
        if series:
            yield f'{tag}: {sorted(series)} for a run without iterations'
        return
    for s in need:
        if s not in series:
            yield f'{tag}: series {s} is missing'
            return
    for s, v in series.items():
        if len(v) != N:
            yield f'{tag}: series {s} has {len(v)} entries, {N} iterations'
            return
    since = 0
    for i, st in enumerate(tr.steps):
        e = {s: v[i] for s, v in series.items()}
        it = f'{tag} iteration {i + 1}:'
        f1 = st.ans[0]
        moved = not (st.post.f == st.pre.f and eq(st.post.x, st.pre.x))
        if not (e['fval'] == f1 or (np.isnan(e['fval']) and np.isnan(f1))):
            yield f'{it} fval {e["fval"]!r}, evaluated {f1!r}'
        if bool(e['accept']) != moved:
            yield f'{it} accept {e["accept"]!r}, observed {moved}'
        if e['tr_radius'] != st.pre.delta:
            yield f'{it} tr_radius {e["tr_radius"]!r}, was {st.pre.delta!r}'
        if not rclose(e['normgrad'], np.sqrt(np.sum(st.post.g ** 2)), 1e-12):
            yield f'{it} normgrad {e["normgrad"]!r} for {st.post.g}'
        dx = st.xt - st.pre.x
        ulp = np.spacing(np.maximum(np.abs(st.xt), np.abs(st.pre.x)))
        nd = np.sqrt(np.sum(dx ** 2))
        if abs(e['normstep'] - nd) > 4 * np.sum(ulp) + 1e-12 * nd:
            yield f'{it} normstep {e["normstep"]!r}, observed {nd!r}'
        if st.post.ratio not in (None, e['tr_ratio']):
            yield f'{it} tr_ratio {e["tr_ratio"]!r} vs {st.post.ratio!r}'
        q = Quad(st.pre.x, st.pre.g, st.pre.H, prob.lb, prob.ub)
        if hasattr(prob, 'm') or needs_hess(prob.update or ''):
            pass
        elif np.isfinite(f1):
            fac = Facts(prob, st)
            if fac.ratio is not None:
                r0, r1 = fac.ratio
                sl = 1e-9 * (abs(r0) + abs(r1))
                if not r0 - sl <= e['tr_ratio'] <= r1 + sl:
                    yield f'{it} tr_ratio {e["tr_ratio"]!r} not in {fac.ratio}'
        if not np.isfinite(f1) and e['tr_ratio'] != 0:
            yield f'{it} tr_ratio {e["tr_ratio"]!r} for undefined value'
        if not rclose(e['theta'], q.theta, 1e-9):
            yield f'{it} theta {e["theta"]!r}, expected {q.theta!r}'
        if not 0 <= e['alpha'] <= 1:
            yield f'{it} alpha {e["alpha"]!r}'
        n = len(st.xt)
        if not (0 <= e['reflections'] <= n and 0 <= e['truncations'] <= n):
            yield (f'{it} {e["reflections"]} reflections, '
                   f'{e["truncations"]} truncations')
        if not 0 <= e['subspace_dim'] <= n:
            yield f'{it} subspace_dim {e["subspace_dim"]!r}'
        if e['step_type'] not in TYPES:
            yield f'{it} step_type {e["step_type"]!r}'
        for m in kinds(prob, q, st, e):
            yield f'{it} {m}'
        since = 0 if st.post.delta != st.pre.delta else since + 1
        if e['iterations_since_tr_update'] != since:
            yield (f'{it} iterations_since_tr_update '
                   f'{e["iterations_since_tr_update"]}, expected {since}')
        sc = 1e-300 + np.abs(st.post.H).max()
        ev = np.real(np.linalg.eigvals(st.post.H))
        for s, w in (('hess_min_ev', ev.min()), ('hess_max_ev', ev.max())):
            if abs(e[s] - w) > 1e-7 * sc:
                yield f'{it} {s} {e[s]!r}, expected {w!r}'
        D = st.post.H - st.pre.H
        ev = np.real(np.linalg.eigvals(D))
        for s, w in (('hess_update_min_ev', ev.min()),
                     ('hess_update_max_ev', ev.max())):
            if not has_update:
                if not np.isnan(e[s]):
                    yield f'{it} {s} {e[s]!r} without approximation'
            elif abs(e[s] - w) > 1e-6 * (sc + np.abs(st.pre.H).max()):
                yield f'{it} {s} {e[s]!r}, expected {w!r}'
        for s in ('hess_struct_update_min_ev', 'hess_struct_update_max_ev'):
            if not structured:
                if not np.isnan(e[s]):
                    yield f'{it} {s} {e[s]!r} for unstructured scheme'
            elif not moved and e[s] != 0.0:
                yield f'{it} {s} {e[s]!r} for rejected step'
            elif not np.isfinite(e[s]):
                yield f'{it} {s} {e[s]!r}'
        for s, M in (('cond_hess', st.post.H), ('cond_shess', q.M)):
            c = np.linalg.cond(M)
            if c < 1e7 and not rclose(e[s], c, 1e-5):
                yield f'{it} {s} {e[s]!r}, expected {c!r}'


BASE = {'2D': b'2d', 'full': b'nd', 'scg': b'cgs'}


def kinds(prob, q, st, e):
    """what is recorded about the kind of the step agrees with the options
    and with the observed step"""
    t, n = e['step_type'], len(st.xt)
    plain = t not in (b'trr', b'trt')
    refl, trunc = (getattr(prob, 'strat', '') in k for k in (
        ('reflect', 'reflect_single', 'mixed'), ('truncate', 'mixed')))
    if t not in (BASE[prob.solver], b'g', b'trr', b'trt', b'ref') or (
            t == b'trr' and not refl or t == b'trt' and not trunc
            or t == b'ref' and prob.strat != 'refine'
            or n == 1 and t != BASE[prob.solver]):
        yield f'step of type {t} for {prob.solver}/{prob.strat}'
        return
    if (t == b'trr') != (e['reflections'] > 0):
        yield f'{e["reflections"]} reflections of a step of type {t}'
    if (t == b'trt') != (e['truncations'] > 0):
        yield f'{e["truncations"]} truncations of a step of type {t}'
    if t != b'2d' and (e['posdef'] or e['newton']) or (
            e['newton'] and not e['posdef']):
        yield f'posdef {e["posdef"]!r} newton {e["newton"]!r} for type {t}'
    if t == b'2d':
        ev = np.linalg.eigvals(q.M)
        lo = np.min(np.real(ev)) / (1e-300 + np.max(np.abs(ev)))
        if abs(lo) > 1e-9 and bool(e['posdef']) != (lo > 0):
            yield f'posdef {e["posdef"]!r}, lowest eigenvalue {lo:.1e}'
    if not plain:
        return
    s = st.xt - st.pre.x
    ulp = np.spacing(np.maximum(np.abs(st.xt), np.abs(st.pre.x)))
    with np.errstate(all='ignore'):
        dist = np.where(s > 0, q.ub - st.pre.x, st.pre.x - q.lb)
        used = np.abs(s) / dist
        tol = 1e-6 + 4 * ulp / dist
    if e['alpha'] < 1 and not np.any(np.abs(used - q.theta) <= tol):
        yield (f'alpha {e["alpha"]!r}, but the step uses {used} of the '
               f'distance to the bounds')
    if e['alpha'] == 1 and np.any(used > q.theta + tol):
        yield f'alpha 1, but the step uses {used} of the distance'


# ------------------------------------------------------------ observed runs
def observed(kind, spec, path, sid, acts):
    """(prob, trace, has_update, structured) of one run with history"""
    ks, so, st, upd = spec
    lb, ub, x0 = box(ks)
    extra = {} if path is None else {'history_file': path}
    if kind == 'res':
        from ..checks.c14 import mkapprox
        from ..lsq import RProb, jac, res

        p = RProb(lb, ub, x0, 4, upd, so, st, **OPTS)
        o, h = make(lb, ub, so, st, resfun=True,
                    hess_update=mkapprox(upd)[0] if upd else None,
                    maxiter=len(acts), **OPTS, **extra)

        def env(k, x, snap):
            if k == 0:
                return res(3, 4), jac(0, 4, p.n)
            r, j, s = acts[k - 1]
            return res([r, s], 4), jac(j, 4, p.n)

        tr = drive(o, np.array(x0), env, holder=h, start_id=sid)
        # reduce to value, gradient, Hessian
        from ..lsq import fgH

        tr.calls = [(x, fgH(a)) for x, a in tr.calls]
        return p, tr, upd is not None, upd not in (None, 'FX')
    p = Prob(lb, ub, x0, so, st, update=upd, **OPTS)
    q = Prob(lb, ub, x0, so, st, update=upd, **OPTS, **extra)
    tr = run(q, acts, opt_holder=default_opt(q, len(acts)), start_id=sid)
    return p, tr, upd is not None, False


RACT = [(0, 1, 1.0), (1, 0, 1.0), (2, 2, 1.0), (3, 1, 3.0), (5, 2, 1.0),
        (4, 3, 1.0)]


def content(kind, spec, acts, out):
    tmp = tempfile.mkdtemp(prefix='c19')
    try:
        path = os.path.join(tmp, 'h.h5')
        p, tr, upd, struct = observed(kind, spec, path, 'id', acts)
        out.add('states')
        out.add('transitions', len(tr.steps))
        out.add('traces_validated_against_impl')
        case = {'content': [kind, spec, acts]}
        if tr.exc is not None:
            out.add('runs_with_exception')
            return
        got = read(path)
        if list(got) != ['id']:
            out.violation(f'groups {list(got)}, expected id', case)
            return
        for m in itertools.islice(
                contents(p, tr, got['id'], upd, struct, f'{spec}'), 2):
            out.violation(m + f' [{acts[:5]}]', case)
        ref = observed(kind, spec, None, 'id', acts)[1]
        d = diff(ref, tr)
        if d:
            out.violation(f'{spec}: run differs with history: {d}', case)
        if not out.samples:
            out.sample({**case, 'fval': got['id']['fval'],
                        'radius': got['id']['tr_radius']})
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------ several runs
KINDS = ['normal', 'short', 'rejected', 'none', 'exc', 'oob', 'nan0']
PLAN = {
    'normal': [ACT[0], ACT[3], ACT[1]], 'short': [ACT[0]],
    'rejected': [ACT[1], ACT[2]], 'none': [], 'exc': [ACT[0]], 'oob': [],
    'nan0': [],
}
IDS = {
    'plain': ['a', 'b', 'c', 'd'], 'spaces': ['run 1', 'run 2', 'r', ' '],
    'unicode': ['läuft', '第一', 'ß', 'é'],
    'long': [c + 'n' * 70 + d for c, d in ('aa', 'ab', 'bb', 'aB')],
    'odd': ['a.b', 'a ', 'None', '-1'],
    'auto': [None, None, None, None],
    'mixed': ['a', None, '0', None],
    'repeated': ['a', 'a', 'b', 'a'],
}


class Boom(Exception):
    pass


def nested(spec, acts, at, same_file, sid, out):
    """the objective of a run with history runs another optimizer"""
    case = {'nested': [spec, acts, at, same_file, sid]}
    tag = f'{spec} nested run at evaluation {at}, same file {same_file}:'
    ks, so, st, upd = spec
    lb, ub, x0 = box(ks)
    tmp = tempfile.mkdtemp(prefix='c19')
    try:
        path = os.path.join(tmp, 'h.h5')
        path2 = path if same_file else os.path.join(tmp, 'i.h5')
        p = Prob(lb, ub, x0, so, st, update=upd, **OPTS)
        o, h = make(lb, ub, so, st, hess_update=approx(upd),
                    maxiter=len(acts), history_file=path, **OPTS)
        inner = []

        def env(k, x, snap):
            if k == at:
                q = Prob(lb, ub, x0, so, st, update=upd, **OPTS)
                o2, h2 = make(lb, ub, so, st, hess_update=approx(upd),
                              maxiter=len(acts), history_file=path2, **OPTS)
                inner.append((q, one_of('inner', o2, h2, q, 'inner',
                                        acts[::-1])))
            a = p.init if k == 0 else acts[k - 1]
            r = answer(p, snap, x, a, k)
            return r if upd is None or needs_hess(upd) else r[:2]

        tr = drive(o, np.array(x0), env, holder=h, start_id=sid)
        out.add('states')
        out.add('traces_validated_against_impl', 2)
        out.add('transitions', len(tr.steps) + len(inner[0][1].steps))
        for t in (tr, inner[0][1]):
            if t.exc is not None:
                out.violation(f'{tag} {t.exc!r}', case)
                return
        got, got2 = read(path), read(path2)
        if not same_file and list(got2) != ['inner']:
            out.violation(f'{tag} groups {list(got2)} of inner run', case)
            return
        names = [g for g in got if g != 'inner' or not same_file]
        if len(names) != 1 or sid and names != [sid]:
            out.violation(f'{tag} groups {list(got)}', case)
            return
        for (q, t), ser in (((p, tr), got[names[0]]),
                            (inner[0], got2['inner'])):
            for m in itertools.islice(contents(
                    q, t, ser, upd is not None, False, tag), 2):
                out.violation(m, case)
    finally:
        shutil.rmtree(tmp)


def one_of(kind, o, h, p, sid, acts):
    def env(k, x, snap):
        if kind == 'exc' and k == len(acts):
            raise Boom()
        if k == 0:
            a = ('nan', 'a', 'p') if kind == 'nan0' else p.init
        else:
            a = acts[k - 1]
        r = answer(p, snap, x, a, k)
        return r if p.update is None or needs_hess(p.update) else r[:2]

    x0 = p.x0 + (1e6 if kind == 'oob' else 0.0)
    return drive(o, x0, env, holder=h, start_id=sid)


def files(kinds, ids, same, foreign, out):
    tmp = tempfile.mkdtemp(prefix='c19')
    case = {'files': [kinds, ids, same, foreign]}
    tag = f'{kinds} ids={ids} same={same}'
    try:
        path = os.path.join(tmp, 'h.h5')
        if foreign:
            with h5py.File(path, 'w') as f:
                f.create_dataset('other/fval', data=[1.0, 2.0])
                f.create_dataset('data', data=np.arange(3))
        lb, ub, x0 = box('bb')
        p = Prob(lb, ub, x0, **OPTS)
        want = read(path) if foreign else {}
        made = {}
        for i, kind in enumerate(kinds):
            acts = PLAN[kind]
            m = len(acts)
            key = 0 if same else i
            if key not in made:
                made[key] = make(lb, ub, maxiter=m, history_file=path, **OPTS)
            o, h = made[key]
            if same:  # the same optimizer: budget by exhausted criterion
                o.options = {**o.options, 'maxiter': m}
            tr = one_of(kind, o, h, p, IDS[ids][i], acts)
            out.add('transitions', len(tr.steps))
            out.add('traces_validated_against_impl')
            got = read(path) if os.path.exists(path) else {}
            for g, ser in want.items():
                if g not in got or set(got[g]) != set(ser) or any(
                    not np.array_equal(got[g][s], ser[s],
                                       equal_nan=ser[s].dtype.kind == 'f')
                    for s in ser
                ):
                    out.violation(f'{tag}: run {i} changed earlier group '
                                  f'{g}', case)
                    return
            new = [g for g in got if g not in want]
            if IDS[ids][i] in want:
                # the identifier is taken: the run may be refused, but what
                # is there stays
                out.add('repeated_identifiers')
                want = got
                continue
            failed = kind in ('exc', 'oob', 'nan0')
            if failed:
                if tr.exc is None:
                    out.violation(f'{tag}: run {i} should fail', case)
                    return
                for g in new:  # nothing is required, but it must be true
                    if IDS[ids][i] is not None and g != IDS[ids][i]:
                        out.violation(f'{tag}: unexpected group {g}', case)
                        return
                want = got
                continue
            if tr.exc is not None:
                out.violation(f'{tag}: run {i}: {tr.exc!r}', case)
                return
            if len(new) != 1:
                out.violation(f'{tag}: run {i} added groups {new}', case)
                return
            sid = IDS[ids][i]
            if sid is not None and new[0] != sid:
                out.violation(f'{tag}: run {i} added group {new[0]!r}, '
                              f'identifier is {sid!r}', case)
                return
            if o.start_id != new[0]:
                out.violation(f'{tag}: group {new[0]!r} vs start_id '
                              f'{o.start_id!r}', case)
            for msg in itertools.islice(contents(
                    p, tr, got[new[0]], False, False,
                    f'{tag} run {i}'), 1):
                out.violation(msg, case)
                return
            want = got
        out.add('states')
    finally:
        shutil.rmtree(tmp)


# --------------------------------------------------------------- passivity
LEVELS = [0, 10, 20, 30, 40, 50]


def passive(spec, acts, out):
    ks, so, st, upd = spec
    lb, ub, x0 = box(ks)
    ref = None
    tmp = tempfile.mkdtemp(prefix='c19')
    try:
        for i, (lev, hist) in enumerate(itertools.product(
                [None] + LEVELS, (False, True))):
            if lev is None and hist:
                continue
            p = Prob(lb, ub, x0, so, st, update=upd, **OPTS)
            extra = {'history_file': os.path.join(tmp, f'{i}.h5')
                     } if hist else {}
            kw = {} if lev is None else {'verbose': lev}
            o, h = make(p.lb, p.ub, so, st, hess_update=approx(upd),
                        maxiter=len(acts), **OPTS, **extra, **kw)
            tr, log = quiet(lambda o=o, h=h, p=p: run(
                p, acts, opt_holder=(o, h)))
            out.add('transitions', len(tr.steps))
            out.add('traces_validated_against_impl')
            if ref is None:
                ref = tr
                continue
            if lev in (10, 20) and not log:
                out.add('silent')
            d = diff(ref, tr)
            if d:
                out.violation(f'{spec} {acts}: verbosity {lev}, history '
                              f'{hist}: {d}', {'passive': [spec, acts]})
                return
        out.add('states')
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------- tasks
def tasks(tier):
    t = []
    th = tier == 'thorough'
    d = 4 if th else 3
    for ks in BOXES:
        for so, st in (('2D', 'reflect'), ('full', 'truncate')):
            for first in ACT:
                t.append(('content', 'dir', (ks, so, st, None), first, d - 1))
    for so, st in COMBOS:
        t.append(('content', 'dir', ('bl', so, st, None), ACT[0],
                  1 if st == 'refine' else 2))
        if st != 'refine':
            t.append(('content', 'dir', ('blb', so, st, None), ACT[4], 2))
    for upd in UPD:
        for first in ACT[:4]:
            t.append(('content', 'dir', ('bl', '2D', 'reflect', upd), first,
                      d - 1))
            t.append(('content', 'dir', ('u', 'full', 'mixed', upd), first,
                      d - 2))
    for upd in RES:
        for ks in ('bl', 'uu', 'B'):
            t.append(('content', 'res', (ks, '2D', 'reflect', upd), None, d))
    for ids in IDS:
        for same in (False, True):
            for first in KINDS:
                t.append(('files', first, ids, same, d - 1))
    for upd in (None, 'BFGS', 'HybridFixed:switch_iteration=1'):
        for ks in ('B', 'bl'):
            for so, st in (('2D', 'reflect'), ('full', 'truncate'),
                           ('scg', 'mixed')):
                for first in ACT:
                    t.append(('passive', (ks, so, st, upd), first, d - 2))
    for upd in (None, 'BFGS', 'HybridFixed:switch_iteration=1'):
        for ks, so, st in (('u', '2D', 'reflect'), ('bl', 'full', 'mixed'),
                           ('B', 'scg', 'truncate')):
            t.append(('nested', (ks, so, st, upd), d))
    for upd in (None, 'BFGS', 'BG', 'SR1', 'HybridFixed'):
        for ks in ('u', 'bl'):
            t.append(('longrun', (ks, '2D', 'reflect', upd), 130))
    t.append(('longrun', ('u', '2D', 'reflect', None), 1100))
    t.append(('longrun', ('bl', '2D', 'reflect', None), 1100))
    t.append(('passive', ('blb', '2D', 'reflect', None), ACT[4], d - 1))
    return t


def work(task):
    out = engine.Out()
    if task[0] == 'content':
        _, kind, spec, first, d = task
        al = RACT if kind == 'res' else ACT
        for rest in itertools.product(al, repeat=d):
            content(kind, spec, ((first,) if first else ()) + rest, out)
            if len(out.viol) > 2:
                break
    elif task[0] == 'nested':
        for acts in itertools.product(ACT[:4], repeat=task[2]):
            for at in range(len(acts) + 1):
                for same in (False, True):
                    nested(task[1], acts, at, same, (None, 'o')[same], out)
                    if len(out.viol) > 2:
                        return out
    elif task[0] == 'longrun':
        _, spec, n = task
        # mostly accepted, so that the radius does not vanish
        for k in (1, 2, 4) if n < 1000 else (1,):
            content('dir', spec, ([ACT[0], ACT[3], ACT[0], ACT[k], ACT[7],
                                   (0.5, 'e', 'p')] * n)[:n], out)
    elif task[0] == 'files':
        _, first, ids, same, d = task
        for rest in itertools.product(KINDS, repeat=d):
            files((first,) + rest, ids, same, rest[0] == 'short', out)
            if len(out.viol) > 2:
                break
    else:
        _, spec, first, d = task
        for rest in itertools.product(ACT, repeat=d):
            passive(spec, (first,) + rest, out)
            if len(out.viol) > 2:
                break
    return out


def replay(c, out):
    if 'content' in c:
        kind, spec, acts = c['content']
        acts = [tuple(a[:2]) + (float(a[2]),) if kind == 'res' else _act(a)
                for a in acts]
        content(kind, spec, acts, out)
    elif 'nested' in c:
        spec, acts, at, same, sid = c['nested']
        nested(spec, [_act(a) for a in acts], at, same, sid, out)
    elif 'files' in c:
        files(*c['files'], out)
    else:
        spec, acts = c['passive']
        passive(spec, [_act(a) for a in acts], out)


__all__ = ['close_x']
