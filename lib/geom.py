"""Numerical values of the specification's exact symbols."""
import cmath, itertools, math

Z24 = [cmath.exp(2j*math.pi*k/24) for k in range(24)]


def cyc(a):
    return sum(x*z for x, z in zip(a, Z24) if x)


def sinc(n, N):
    return 1. if n == 0 else math.sin(math.pi*n/N)/(math.pi*n/N)


def signed1(i, n):
    return i if 2*i < n else i - n


def cells(n):
    return list(itertools.product(*[range(m) for m in n]))


def window(n, p):
    """Assignment window of every cell label."""
    return [math.prod(sinc(signed1(i, m), m) for i, m in zip(c, n))**p for c in cells(n)]


def pref(l, m):
    m = abs(m)
    return math.sqrt(math.factorial(l - m)/math.factorial(l + m))


def idft(F, n):
    """sum_k F_k exp(+ik.x), separable."""
    import numpy as np
    return (np.fft.ifftn(np.array(F).reshape(n))*math.prod(n)).ravel().tolist()


LOS = {3: [(1, 2, 2), (2, 1, 2), (2, 2, 1), (3, 0, 0), (0, 3, 0), (0, 0, 3)],
       5: [(0, 3, 4), (3, 4, 0), (4, 0, 3), (0, 0, 5), (5, 0, 0)],
       7: [(2, 3, 6), (6, 2, 3), (3, 6, 2), (0, 0, 7)],
       1: [(1, 0, 0), (0, 1, 0), (0, 0, 1)]}


def los(rng, norm):
    v = list(rng.choice(LOS[norm]))
    rng.shuffle(v)
    return [rng.choice([-1, 1])*x for x in v]
