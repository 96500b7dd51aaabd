"""Truncated power series with symbolic coefficients: transforms of distributions given by their moments."""
from math import factorial

from .alg import rat, ZERO, ONE


def lst(moments, n=None):
    """transform 1 - m1 s + m2 s^2 / 2 - ... from the moments m1, m2, ..."""
    n = len(moments) if n is None else n
    return [ONE] + [moments[k - 1] * (rat((-1) ** k) / factorial(k)) for k in range(1, n + 1)]


def moments(ser):
    return [ser[k] * rat((-1) ** k) * factorial(k) for k in range(1, len(ser))]


def add(a, b):
    n = min(len(a), len(b))
    return [a[i] + b[i] for i in range(n)]


def sub(a, b):
    n = min(len(a), len(b))
    return [a[i] - b[i] for i in range(n)]


def scale(a, c):
    return [x * c for x in a]


def mul(a, b):
    n = min(len(a), len(b))
    out = []
    for k in range(n):
        t = ZERO
        for i in range(k + 1):
            if not a[i].is_zero() and not b[k - i].is_zero():
                t = t + a[i] * b[k - i]
        out.append(t)
    return out


def power(a, k):
    out = const(ONE, len(a))
    for _ in range(k):
        out = mul(out, a)
    return out


def const(c, n):
    return [c if isinstance(c, type(ONE)) else rat(c)] + [ZERO] * (n - 1)


def var(n):
    return [ZERO, ONE] + [ZERO] * (n - 2)


def compose(f, g):
    """f(g(s)), g without constant term"""
    out = const(f[-1], len(g))
    for c in reversed(f[:-1]):
        out = mul(out, g)
        out[0] = out[0] + c
    return out


def div(a, b):
    """a / b; common powers of s are removed"""
    while a and b and a[0].is_zero() and b[0].is_zero():
        a, b = a[1:], b[1:]
    n = min(len(a), len(b))
    out = []
    for k in range(n):
        t = a[k]
        for i in range(k):
            t = t - out[i] * b[k - i]
        out.append(t / b[0])
    return out
