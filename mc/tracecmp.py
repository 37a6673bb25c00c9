"""bitwise comparison of two executions"""

import numpy as np


def eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def diff(t1, t2, state=True):
    """None if the executions are identical, else a description"""
    for k in range(max(len(t1.calls), len(t2.calls))):
        if k >= len(t1.calls) or k >= len(t2.calls):
            return f'{len(t1.calls)} vs {len(t2.calls)} evaluations'
        if not eq(t1.calls[k][0], t2.calls[k][0]):
            return (f'evaluation {k} at {t1.calls[k][0]!r} vs '
                    f'{t2.calls[k][0]!r}')
        if state and k > 0:
            a, b = t1.snaps[k], t2.snaps[k]
            for n in ('x', 'f', 'g', 'H', 'delta', 'xm', 'fm', 'gm', 'it',
                      'ratio'):
                if n == 'ratio' and k < 2:
                    continue  # not defined before the first step
                if n in ('xm', 'gm') and not np.isfinite(a.fm):
                    continue  # there is no best point yet
                if not eq(getattr(a, n), getattr(b, n)):
                    return (f'state {n} at evaluation {k}: '
                            f'{getattr(a, n)!r} vs {getattr(b, n)!r}')
    if (t1.exc is None) != (t2.exc is None) or type(t1.exc) is not type(
        t2.exc
    ):
        return f'exception {t1.exc!r} vs {t2.exc!r}'
    if (t1.ret is None) != (t2.ret is None):
        return 'one run returned, one did not'
    if t1.ret is not None:
        for n, a, b in zip(('f', 'x', 'grad', 'hess'), t1.ret, t2.ret):
            if not eq(a, b):
                return f'returned {n}: {a!r} vs {b!r}'
    a, b = t1.final, t2.final
    if a.flag != b.flag or a.conv != b.conv or a.it != b.it:
        return f'flags {a.flag!r},{a.it} vs {b.flag!r},{b.it}'
    if len(t1.calls):
        for n in ('xm', 'fm', 'gm'):
            if n != 'fm' and not np.isfinite(a.fm):
                continue
            if not eq(getattr(a, n), getattr(b, n)):
                return f'final {n}: {getattr(a, n)!r} vs {getattr(b, n)!r}'
    return None
