"""exact rational reference of the documented secant updates (Nocedal & Wright
ch. 6, Broyden 1965), in forms that differ from the ones fides uses"""

from fractions import Fraction as F

import numpy as np


def vec(v):
    return [F(float(z)) for z in v]


def mat(M):
    return [[F(float(z)) for z in r] for r in M]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def mv(M, v):
    return [dot(r, v) for r in M]


def tr(M):
    return [list(r) for r in zip(*M)]


def mm(A, B):
    Bt = tr(B)
    return [[dot(r, c) for c in Bt] for r in A]


def add(A, B, k=1):
    return [[x + k * y for x, y in zip(r, q)] for r, q in zip(A, B)]


def outer(a, b):
    return [[x * y for y in b] for x in a]


def scale(A, k):
    return [[k * x for x in r] for r in A]


def eye(n):
    return [[F(int(i == j)) for j in range(n)] for i in range(n)]


def inv(M):
    n = len(M)
    A = [list(r) + list(e) for r, e in zip(M, eye(n))]
    for i in range(n):
        p = next((k for k in range(i, n) if A[k][i] != 0), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        d = A[i][i]
        A[i] = [z / d for z in A[i]]
        for k in range(n):
            if k != i and A[k][i] != 0:
                m = A[k][i]
                A[k] = [a - m * b for a, b in zip(A[k], A[i])]
    return [r[n:] for r in A]


def arr(M):
    return np.array([[float(z) for z in r] for r in M])


def bfgs(B, s, y):
    u = mv(B, s)
    return add(add(B, scale(outer(y, y), 1 / dot(y, s))),
               scale(outer(u, u), -1 / dot(s, u)))


def dfp(B, s, y):
    r = 1 / dot(y, s)
    P = add(eye(len(s)), scale(outer(y, s), -r))
    return add(mm(mm(P, B), tr(P)), scale(outer(y, y), r))


def broyden(B, s, y, phi):
    phi = F(float(phi))
    if phi == 0:
        return bfgs(B, s, y)
    if phi == 1:
        return dfp(B, s, y)
    return add(scale(bfgs(B, s, y), 1 - phi), dfp(B, s, y), phi)


def sr1(B, s, y):
    z = [a - b for a, b in zip(y, mv(B, s))]
    return add(B, scale(outer(z, z), 1 / dot(z, s)))


def good(B, s, y):
    z = [a - b for a, b in zip(y, mv(B, s))]
    return add(B, scale(outer(z, s), 1 / dot(s, s)))


def bad(B, s, y):
    """update of the inverse; None if it does not exist"""
    H = inv(B)
    if H is None:
        return None
    z = [a - b for a, b in zip(s, mv(H, y))]
    yy = dot(y, y)
    if yy == 0:
        return None
    return inv(add(H, scale(outer(z, y), 1 / yy)))
