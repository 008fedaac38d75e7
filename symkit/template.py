"""Concrete stand-ins for uninterpreted user functions, used when a symbolic
result has to be evaluated or replayed on the real code.

f(a_1..a_k) = c0 + sum c_j a_j + d a_1 a_k, with small dyadic coefficients
fixed by the function's name; a NaN argument counts as 3/8.
"""
import zlib
from fractions import Fraction


def coef(name, j):
    return Fraction(zlib.crc32(f"{name}/{j}".encode()) % 13 - 6, 8) or Fraction(5, 8)


def apply(name, args, add, mul, const):
    acc = const(coef(name, 0))
    for j, a in enumerate(args):
        acc = add(acc, mul(const(coef(name, j + 1)), a))
    if args:
        acc = add(acc, mul(const(coef(name, "q") / 4), mul(args[0], args[-1])))
    return acc


NAN_ARG = Fraction(3, 8)


def value(name, args):
    args = [NAN_ARG if a != a else a for a in args]
    frac = all(isinstance(a, Fraction) for a in args)
    r = apply(name, args, lambda x, y: x + y, lambda x, y: x * y,
              (lambda c: c) if frac else float)
    if frac and r.denominator.bit_length() > LONG:
        r = shorten(r)
    return r


LONG = 160


def shorten(r, bits=LONG):
    """The value to a fixed number of significant bits; a product of arguments
    would otherwise double its digits at every step of a long run."""
    k = bits + r.denominator.bit_length() - abs(r.numerator).bit_length()
    return Fraction((r.numerator << k) // r.denominator, 1 << k) if k > 0 else r
