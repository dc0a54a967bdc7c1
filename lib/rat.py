"""Rationals as spec/Rat.tla computes them, refusing what does not fit TLC's integers."""
from fractions import Fraction as F
from math import gcd

TOP = 2**31 - 1


class Big(Exception):
    pass


def ck(*v):
    if any(abs(x) > TOP for x in v):
        raise Big
    return v[-1]


def add(a, b):
    g = gcd(a.denominator, b.denominator)
    x, y = ck(a.numerator*(b.denominator//g)), ck(b.numerator*(a.denominator//g))
    ck(x + y, (a.denominator//g)*b.denominator)
    return a + b


def mul(a, b):
    c = a*b
    ck(c.numerator, c.denominator)
    return c


def power(a, n):
    r = F(1)
    for _ in range(n):
        r = mul(a, r)
    return r


def horner(co, x):
    r = F(0)
    for c in reversed(co):
        r = add(c, mul(x, r))
    return r


def fits(fn, *a):
    try:
        fn(*a)
        return True
    except Big:
        return False
