"""Definitions of library functions in terms of simpler ones.

Analysed by the same interpreter in place of the library; never executed."""
import numpy as np
import tensorflow as tf


def reduce(f, xs, *init):
    xs = list(xs)
    if len(init) > 0:
        r = init[0]
        for x in xs:
            r = f(r, x)
        return r
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def accumulate(xs, f=None, initial=None):
    if f is None:
        f = lambda a, b: a + b
    xs = list(xs)
    if initial is not None:
        r = initial
        out = [r]
        for x in xs:
            r = f(r, x)
            out.append(r)
        return out
    r = xs[0]
    out = [r]
    for x in xs[1:]:
        r = f(r, x)
        out.append(r)
    return out


def fori_loop(lower, upper, body, init):
    r = init
    for i in range(lower, upper):
        r = body(i, r)
    return r


def while_loop(cond, body, init):
    r = init
    while cond(r):
        r = body(r)
    return r


def tf_while(cond, body, loop_vars, shape_invariants=None, maximum_iterations=None):
    r = tuple(loop_vars)
    while cond(*r):
        r = body(*r)
    return r


def lax_cond(pred, yes, no, *operands):
    if pred:
        return yes(*operands)
    return no(*operands)


def foldl(fn, elems, initializer=None):
    if initializer is None:
        r = elems[0]
        for x in elems[1:]:
            r = fn(r, x)
        return r
    r = initializer
    for x in elems:
        r = fn(r, x)
    return r


def foldr(fn, elems, initializer=None):
    if initializer is None:
        r = elems[-1]
        for x in elems[:-1][::-1]:
            r = fn(r, x)
        return r
    r = initializer
    for x in elems[::-1]:
        r = fn(r, x)
    return r


def multi_dot(arrays):
    r = arrays[0]
    for a in arrays[1:]:
        r = r @ a
    return r


def diff(a, n=1, axis=-1):
    for _ in range(n):
        a = np.moveaxis(a, axis, 0)
        a = a[1:] - a[:-1]
        a = np.moveaxis(a, 0, axis)
    return a


def isclose(a, b, rtol=1e-05, atol=1e-08):
    return np.abs(a - b) <= atol + rtol * np.abs(b)


def matmul(a, b):
    return a @ b


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def chain(*lists):
    r = []
    for x in lists:
        r = r + list(x)
    return r
