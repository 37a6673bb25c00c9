"""reference verdicts for one secant update: which matrices are admissible,
with a forward error bound"""

import numpy as np

from . import exact as ex

SQ = float(np.sqrt(np.spacing(1)))
E = 1e-12


class Spec:
    def __init__(self, name):
        self.name = name
        cls = name.split(':')[0]
        kw = {}
        if ':' in name:
            kw = eval('dict(' + name.split(':')[1] + ')')
        self.cls = cls
        self.enforce = kw.get('enforce_curv_cond', True)
        self.phi = {'BFGS': 0.0, 'DFP': 1.0}.get(cls, kw.get('phi', 0.0))


def admissible(spec, B, s, y, serr=0.0):
    """[(matrix, tolerance, kind)] admissible matrices after the update of B
    with step s (known up to relative error serr) and gradient change y; None
    if the update is undefined (division by zero), so nothing is required"""
    B, s, y = (np.asarray(a, float) for a in (B, s, y))
    ns, ny = np.linalg.norm(s), np.linalg.norm(y)
    nB = np.abs(B).max()
    u = B @ s
    nu = np.linalg.norm(u)
    nu_ = nB * ns * len(s)
    skip = (B, 0.0, 'skip')
    eB, es, ey = ex.mat(B), ex.vec(s), ex.vec(y)
    rel = E + 10 * serr
    out = []
    if spec.cls in ('BFGS', 'DFP', 'Broyden'):
        b, c = float(ex.dot(es, ey)), float(ex.dot(es, ex.mv(eB, es)))
        doubt = abs(b) <= rel * ns * ny and not (ny == 0)
        if doubt:
            return None  # sign decided by rounding errors
        if b <= 0:
            if spec.enforce:
                return [skip]
            if b == 0:
                return [skip]  # degenerate denominator
        if ny == 0:
            return out or None
        if abs(c) <= rel * ns * nu_ or c == 0:
            return None
        kb = ns * ny / abs(b)
        kc = ns * nu_ / abs(c)
        magn = nB + ny * ny / abs(b) + nu_ * nu_ / abs(c)
        if spec.phi != 0:
            v = ny / abs(b) + nu_ / abs(c)
            magn += abs(spec.phi) * abs(c) * v * v
        out.append((ex.arr(ex.broyden(eB, es, ey, spec.phi)),
                    rel * magn * (kb + kc) * 4, 'update'))
        return out
    ez = [a - b for a, b in zip(ey, ex.mv(eB, es))]
    z = np.array([float(a) for a in ez])
    nz = np.linalg.norm(z)
    zerr = rel * (ny + nu_)
    if spec.cls == 'SR1':
        d = float(ex.dot(ez, es))
        lim = SQ * ns * nz
        amb = zerr * ns * 3
        if abs(d) <= lim + amb:
            out.append(skip)
        if abs(d) > lim - amb and d != 0 and nz > 0:
            if amb >= abs(d):
                return None  # rounding dominates
            out.append((ex.arr(ex.sr1(eB, es, ey)),
                        4 * (nz + zerr) ** 2 / (abs(d) - amb)
                        * (zerr / nz + amb / abs(d) + rel), 'update'))
        return out
    if spec.cls == 'BG':
        return [(ex.arr(ex.good(eB, es, ey)),
                 4 * (zerr + rel * nz) / ns + E * nB, 'update')]
    if spec.cls == 'BB':
        w = B.T @ y
        nw = np.linalg.norm(w)
        nw_ = nB * ny * len(s)
        b = float(ex.dot(ey, ex.mv(eB, es)))
        lim = SQ * ns * nw
        amb = rel * ns * nw_ * 3
        if abs(b) <= lim + amb:
            out.append(skip)
        if abs(b) > lim - amb and b != 0:
            if amb >= abs(b):
                return None
            M = ex.bad(eB, es, ey)
            if M is None:
                M = ex.add(eB, ex.scale(
                    ex.outer(ez, ex.mv(ex.tr(eB), ey)),
                    1 / ex.dot(ey, ex.mv(eB, es))))
            out.append((ex.arr(M),
                        4 * (nz + zerr) * (nw + rel * nw_) / (abs(b) - amb)
                        * (rel * nw_ / max(nw, 1e-300) + zerr
                           / max(nz, 1e-300) + amb / abs(b) + rel)
                        + E * nB, 'update'))
        return out
    raise KeyError(spec.cls)


def verdict(spec, B, s, y, B1, serr=0.0):
    """(message or None, kind)"""
    adm = admissible(spec, B, s, y, serr)
    if adm is None:
        if (not np.all(np.isfinite(np.asarray(B1, float)))
                and np.abs(B).max() < 1e100):  # otherwise: overflow
            return 'matrix has non-finite entries', None
        return None, 'undefined'
    B1 = np.asarray(B1, float)
    if B1.shape != np.shape(B):
        return f'matrix of shape {B1.shape}', None
    best = None
    for M, tol, kind in adm:
        dev = np.abs(B1 - M).max() if np.all(np.isfinite(B1)) else np.inf
        if dev <= tol + 1e-13 * np.abs(M).max():
            if kind == 'update':
                sc = tol + 1e-13 * np.abs(M).max()
                if spec.cls in ('BFGS', 'DFP', 'Broyden', 'SR1') and (
                    np.array_equal(B, B.T)
                    and np.abs(B1 - B1.T).max() > sc
                ):
                    return 'symmetry lost', kind
            return None, kind
        if best is None or dev < best[0]:
            best = (dev, kind, tol)
    return (f'matrix deviates by {best[0]:.2e} from the documented '
            f'{best[1]} (tolerance {best[2]:.1e})'), None
