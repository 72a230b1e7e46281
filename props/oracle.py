"""Reference semantics, written from the property statements over exact scalars."""
from fractions import Fraction

import numpy as np

from hgqsym import core
from hgqsym.core import D, neg, add, sub, mul, div, floor, ceil, round_even, ite, lt, le, eq, teq, minimum, maximum, absolute, power, from_fraction
from hgqsym.core import b_and, b_or, b_not, b_implies, claim_all
from hgqsym.symarray import vec
from hgqsym.worker import A, Harness, put, get, draws, tf_call

HALF = from_fraction(Fraction(1, 2))
TWO = D(2, 0)
N = None


def pow2(n):
    return power(TWO, n, None)


def clip(x, lo, hi):
    return minimum(maximum(x, lo), hi)


def frac_bits(fbw, bw_clip):
    """Integer number of fractional bits of a (possibly symbolic) bitwidth parameter."""
    if bw_clip is not None:
        fbw = clip(fbw, bw_clip[0], bw_clip[1])
    return round_even(fbw)


def quant(x, f, mode):
    """Snap x to multiples of 2^-f: 'floor' or 'round' (ties upward)."""
    s = pow2(f)
    t = mul(x, s, N)
    if mode == 'round':
        t = add(t, HALF, N)
    return div(floor(t), s, N)


def is_int(x):
    return eq(floor(x), x)


def eq_arr(a, b):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    return claim_all(teq, a, b)


STRATS = {0: 'round', 1: 'round', 2: 'round', 3: 'floor'}
