"""Reference semantics of a whole run, applied to a recorded trace of the real
optimizer.  `check(prob, tr, maxiter)` yields (property, message); everything is
three-valued: a verdict is only given where the rounding-error intervals of
the reference computation decide it."""

import numpy as np

from .core import EPS, ExitFlag
from .env import Facts, close_x, in_bounds

NEG = {
    ExitFlag.MAXITER, ExitFlag.MAXTIME, ExitFlag.NOT_FINITE,
    ExitFlag.EXCEEDED_BOUNDARY, ExitFlag.DELTA_TOO_SMALL,
}


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def ans_finite(ans):
    return all(np.all(np.isfinite(a)) for a in ans)


def conv(prob, fac, st, k):
    """three-valued convergence criteria after step k -> dict flag: (must,
    may)"""
    fatol, frtol = prob.opt('fatol'), prob.opt('frtol')
    xtol, gatol, grtol = prob.opt('xtol'), prob.opt('gatol'), prob.opt('grtol')
    mu = prob.opt('mu')
    f0, f1 = st.pre.f, st.ans[0]
    out = {}
    if fac.ratio is not None and fac.finite:
        df = abs(f1 - f0)
        lim = fatol + frtol * abs(f0)
        sl = 1e-12 * lim
        must = fac.ratio[0] > mu and df < lim - sl
        may = fac.ratio[1] > mu and df < lim + sl
    elif fac.finite:
        must, may = False, True
    else:
        must = may = False
    out[ExitFlag.FTOL] = (must, may)
    out[ExitFlag.XTOL] = (
        k > 1 and fac.nsx[1] < xtol,
        k > 1 and fac.nsx[0] < xtol,
    )

    def g(gr, f):
        gn = np.sqrt(np.sum(np.asarray(gr, float) ** 2))
        must = gn * (1 + 1e-12) <= gatol or all(
            gn * (1 + 1e-12) <= grtol * abs(z) for z in f
        )
        may = gn * (1 - 1e-12) <= gatol or any(
            gn * (1 - 1e-12) <= grtol * abs(z) for z in f
        )
        return must, may

    rej = g(st.pre.g, [f0])
    if fac.accept is False:
        out[ExitFlag.GTOL] = rej
    else:
        acc = g(st.ans[1], [f0, f1])
        if fac.accept:
            out[ExitFlag.GTOL] = acc
        else:
            out[ExitFlag.GTOL] = (acc[0] and rej[0], acc[1] or rej[1])
    return out


def check(prob, tr, maxiter, cnt=None, time_ref=None, only=None):
    def c(name, k=1):
        if cnt is not None:
            cnt.add(name, k)

    n = prob.n
    if tr.hang:
        yield 'C11', 'execution exceeded its CPU budget (no termination)'
        return

    # ---- C01: every point at which the objective is evaluated ------------
    for k, (x, _) in enumerate(tr.calls):
        if x.shape != (n,) or not np.isfinite(x).all():
            yield 'C01', f'evaluation {k} at non-finite/ill-shaped point {x}'
            return
        if not in_bounds(prob, x):
            yield 'C01', f'evaluation {k} outside of the bounds: {x!r}'
    if tr.calls and not close_x(tr.calls[0][0], prob.x0):
        yield 'C01', f'first evaluation at {tr.calls[0][0]}, not at x0'
    if tr.ret is not None:
        xr = np.asarray(tr.ret[1])
        if not np.isfinite(xr).all() or not in_bounds(prob, xr):
            yield 'C01', f'returned point outside of the bounds: {xr!r}'
    for s in tr.snaps[1:] + [tr.final]:
        if not np.isfinite(s.x).all() or not in_bounds(prob, s.x):
            yield 'C01', f'iterate outside of the bounds: {s.x!r}'

    ncalls = len(tr.calls)
    if only == ('C01',):
        c('transitions', max(0, ncalls - 1))
        return
    if ncalls == 0:
        yield 'C11', f'objective never evaluated ({tr.exc!r})'
        return
    if ncalls > maxiter + 1:
        yield 'C11', f'{ncalls} evaluations with maxiter={maxiter}'

    # ---- initial point -----------------------------------------------------
    a0 = tr.calls[0][1]
    if a0 is not None and not ans_finite(a0):
        if not isinstance(tr.exc, RuntimeError) or ncalls != 1:
            yield 'C12', f'non-finite initial point not reported: {tr.exc!r}'
        elif tr.final.flag != ExitFlag.NOT_FINITE:
            yield 'C12', f'non-finite initial point, flag {tr.final.flag!r}'
        return

    # ---- C03: best point ---------------------------------------------------
    best = None
    for k in range(ncalls + 1):
        # snapshot taken during call k: calls 0..k-1 are known
        snap = tr.snaps[k] if k < ncalls else tr.final
        if best is not None:
            xb, fb, gb = best
            if not (same(snap.xm, xb) and snap.fm == fb and same(snap.gm, gb)):
                yield 'C03', (
                    f'best point after {k} evaluations is ({snap.xm}, '
                    f'{snap.fm!r}, {snap.gm}), expected ({xb}, {fb!r}, {gb})'
                )
                break
        if k < ncalls:
            x, ans = tr.calls[k]
            if ans is not None and ans_finite(ans) and (
                best is None or ans[0] < best[1]
            ):
                best = (x, ans[0], ans[1])

    if only == ('C03',):
        c('transitions', max(0, ncalls - 1))
        if tr.ret is not None and tr.final.fm > tr.ret[0]:
            yield 'C03', f'best {tr.final.fm!r} worse than {tr.ret[0]!r}'
        return

    # ---- transitions ---------------------------------------------------------
    steps = tr.steps
    cur = None  # index of call that is the current iterate
    cur = 0
    ended = False
    for st in steps:
        k = st.k
        last = k == ncalls - 1
        c('transitions')
        pre, post = st.pre, st.post
        if pre.it != k:
            yield 'C11', f'iteration counter is {pre.it} at evaluation {k}'
        fac = Facts(prob, st)
        badgrad = fac.finite and not ans_finite(st.ans)

        # C05 radius bounds the scaled step
        if fac.nsx[0] > pre.delta * (1 + 1e-6):
            yield 'C05', (
                f'step {k}: scaled step {fac.nsx[0]:.6g} exceeds trust region '
                f'radius {pre.delta:.6g}'
            )
        # C06 the model predicts a reduction
        nsg = np.max(np.abs(fac.quad.sg))
        if nsg > 0 and fac.pred[1] < 0:
            yield 'C06', f'step {k}: model predicts increase {-fac.pred[1]:.3g}'

        if badgrad:
            if not isinstance(tr.exc, RuntimeError) or not last:
                yield 'C12', (
                    f'step {k}: non-finite derivative at finite trial point '
                    f'not reported: {tr.exc!r}'
                )
            elif tr.final.flag != ExitFlag.NOT_FINITE:
                yield 'C12', f'step {k}: flag {tr.final.flag!r}'
            elif not (same(post.x, pre.x) and post.f == pre.f
                      and same(post.g, pre.g) and same(post.H, pre.H)):
                yield 'C12', f'step {k}: state modified by non-finite point'
            ended = True
            break

        if tr.exc is not None and last:
            yield 'C10', f'step {k}: unexpected {tr.exc!r}'
            ended = True
            break

        # ---- C02 acceptance
        moved_to = close_x(post.x, st.xt) and post.f == st.ans[0] and same(
            post.g, st.ans[1]
        )
        if prob.update is None:
            moved_to = moved_to and same(post.H, st.ans[2])
        stayed = same(post.x, pre.x) and post.f == pre.f and same(
            post.g, pre.g
        ) and same(post.H, pre.H)
        if fac.accept is None:
            c('undecided_accept')
            lab = 'C02'
            if not (moved_to or stayed):
                yield lab, f'step {k}: state after step is neither old nor new'
        elif fac.accept:
            c('accepted')
            if not moved_to:
                yield 'C02', (
                    f'step {k}: f {pre.f!r} -> {st.ans[0]!r}, ratio '
                    f'{fac.ratio} but trial point not adopted'
                )
        else:
            c('rejected')
            if not stayed:
                lab = 'C02' if fac.finite else 'C12'
                yield lab, (
                    f'step {k}: f {pre.f!r} -> {st.ans[0]!r}, ratio '
                    f'{fac.ratio} but state was modified'
                )
        if not post.f <= pre.f:
            yield 'C02', f'step {k}: objective increased {pre.f!r}->{post.f!r}'
        if moved_to and not stayed:
            cur = k

        # ---- C05 radius update
        opts_d = fac.next_delta()
        c('radius_updates')
        if len(opts_d) > 1:
            c('undecided_radius')
        if not any(
            lo - 1e-300 <= post.delta <= hi + 1e-300 for lo, hi in opts_d
        ):
            for lab in ('C05',) if fac.finite else ('C05', 'C12'):
                yield lab, (
                    f'step {k}: radius {pre.delta!r} -> {post.delta!r}, '
                    f'expected {opts_d} (ratio {fac.ratio}, step {fac.nsx})'
                )

        # ---- C10/C11 stop or continue
        cv = conv(prob, fac, st, k)
        must = [f for f, (m, _) in cv.items() if m]
        may = [f for f, (_, m) in cv.items() if m]
        budget = []
        if k >= maxiter:
            budget.append(ExitFlag.MAXITER)
        if post.delta < EPS:
            budget.append(ExitFlag.DELTA_TOO_SMALL)
        tmay = tmust = False
        if time_ref is not None:
            tmust, tmay = time_ref(k)
            if tmay:
                budget.append(ExitFlag.MAXTIME)
        if last:
            flag = tr.final.flag
            c('exits_' + getattr(flag, 'name', str(flag)))
            if flag in cv:
                if flag not in may:
                    yield 'C10', (
                        f'step {k}: {flag!r} reported but criterion is not '
                        f'satisfied (f {pre.f!r} -> {st.ans[0]!r}, step '
                        f'{fac.nsx}, ratio {fac.ratio})'
                    )
                if not tr.final.conv:
                    yield 'C10', f'step {k}: {flag!r} but not converged'
            else:
                if must:
                    yield 'C10', (
                        f'step {k}: criterion of {must} satisfied but flag is '
                        f'{flag!r}'
                    )
                elif flag not in budget:
                    yield 'C11', (
                        f'step {k}: stopped with {flag!r} although budget '
                        f'is not exhausted'
                    )
                if tr.final.conv:
                    yield 'C10', f'step {k}: converged with flag {flag!r}'
            ended = True
        else:
            if must:
                yield 'C10', (
                    f'step {k}: criterion of {must} satisfied but run '
                    f'continued'
                )
            if k >= maxiter or post.delta < EPS or tmust:
                yield 'C11', f'step {k}: budget exhausted but run continued'

    if not steps:
        # no iteration at all
        flag = tr.final.flag
        if tr.exc is not None:
            yield 'C10', f'unexpected {tr.exc!r}'
        elif maxiter == 0:
            if flag != ExitFlag.MAXITER:
                yield 'C11', f'flag {flag!r} with maxiter=0'
        elif time_ref is not None and time_ref(0)[1]:
            if flag != ExitFlag.MAXTIME:
                yield 'C11', f'flag {flag!r}, expected MAXTIME'
        elif prob.opt('delta_init') < EPS:
            pass
        else:
            yield 'C11', f'stopped before first iteration with {flag!r}'

    # ---- C04 returned values ----------------------------------------------
    if tr.ret is not None and tr.final.it != ncalls - 1:
        yield 'C11', f'{ncalls} evaluations in {tr.final.it} iterations'
    if tr.ret is not None:
        f, x, g, H = tr.ret
        xc, ac = tr.calls[cur]
        if not close_x(np.asarray(x), xc):
            yield 'C04', f'returned x {x} is not the last accepted point {xc}'
        if f != ac[0] or not same(g, ac[1]):
            yield 'C04', f'returned f/grad {f!r} {g} do not belong to x'
        if prob.update is None and not same(H, ac[2]):
            yield 'C04', f'returned Hessian {H} does not belong to x'
        s = tr.final
        if not (same(s.x, x) and s.f == f and same(s.g, g)
                and same(s.H, H)):
            yield 'C04', 'returned values differ from optimizer attributes'
        if tr.final.flag in (
            ExitFlag.NOT_FINITE, ExitFlag.EXCEEDED_BOUNDARY,
            ExitFlag.DID_NOT_RUN,
        ):
            yield 'C10', f'regular return with flag {tr.final.flag!r}'
        if tr.final.fm > f:
            yield 'C03', f'best value {tr.final.fm!r} worse than returned {f!r}'
    elif tr.exc is None:
        yield 'C04', 'minimize returned None'
