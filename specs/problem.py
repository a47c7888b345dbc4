"""Problem containers (analysed, never executed)."""
import numpy as np


def expand(params, T):
    F, L, X, U, XT, c, H, r, HT, rT, Z, s, M = params
    n = rows(F, 0)
    m = rows(L, 1)
    p = rows(X, 0)
    XT = np.eye(p) if XT is None else XT
    c = np.zeros(n) if c is None else c
    H = np.eye(p, n) if H is None else H
    r = np.zeros(p) if r is None else r
    HT = np.eye(p, n) if HT is None else HT
    rT = np.zeros(p) if rT is None else rT
    Z = np.eye(m) if Z is None else Z
    s = np.zeros(m) if s is None else s
    M = np.zeros((p, m)) if M is None else M
    return (each(F, T), each(L, T), each(X, T), each(U, T), XT, each(c, T), each(H, T), each(r, T), HT, rT,
            each(Z, T), each(s, T), each(M, T))


def rows(a, axis):
    if isinstance(a, list):
        return a[0].shape[axis]
    return a.shape[axis]


def each(a, T):
    if isinstance(a, list):
        return [a[k] for k in range(T)]
    return [a for k in range(T)]


def expand_fsc(f, L, LT, T):
    n = rows(f, 0)
    LT = np.ones(n) if LT is None else LT
    return each(f, T), each(L, T), LT
