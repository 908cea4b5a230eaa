"""Numbers of the code as exact rationals [numerator, denominator]."""

import math
from fractions import Fraction

from harness.driver import Unrepresentable

NONUM = [0, 0]
MAXDEN = 4000


class Large(Unrepresentable):
    """A rational number with a large numerator or denominator."""


def rat(x, maxden=MAXDEN, tol=1e-7):
    """The rational with a small denominator that x stands for."""
    if x is None:
        return list(NONUM)
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unrepresentable('number %r' % x)
    f = Fraction(x).limit_denominator(maxden)
    if abs(f.numerator) > 2 ** 29:
        raise Large('number %r' % x)
    # neighbours with denominators up to maxden are >= 1 / maxden^2 apart
    if abs(float(f) - x) > tol * 1e-2 * max(1.0, abs(x)):
        g = Fraction(x).limit_denominator(5000000)
        raise (Large if abs(float(g) - x) < 1e-14 * max(1.0, abs(x))
               else Unrepresentable)('number %r' % x)
    return [f.numerator, f.denominator]


def rats(xs, **kw):
    return [rat(x, **kw) for x in xs]


def num(r):
    """The float (or int) a rational stands for."""
    n, d = r
    if d == 0:
        return None
    return n if d == 1 else n / d


def nums(rs):
    return [num(r) for r in rs]


def fr(r):
    return Fraction(r[0], r[1])


def Q(n, d=1):
    f = Fraction(n, d)
    return [f.numerator, f.denominator]


# (cos, sin) pairs of angles with rational sine and cosine
TRIPLES = [(3, 4, 5), (4, 3, 5), (-3, 4, 5), (4, -3, 5), (5, 12, 13)]
RIGHT = [([1, 1], [0, 1]), ([0, 1], [1, 1]), ([-1, 1], [0, 1]),
         ([0, 1], [-1, 1])]


def degrees(c, s):
    """The angle in degrees of a rational (cos, sin); exact for multiples of
    a right angle."""
    for i, (a, b) in enumerate(RIGHT):
        if [c, s] == [a, b]:
            return [0, 90, 180, -90][i]
    return math.degrees(math.atan2(num(s), num(c)))


def tan_degrees(t):
    if t == [0, 1]:
        return 0
    if t == [1, 1]:
        return 45
    if t == [-1, 1]:
        return -45
    return math.degrees(math.atan(num(t)))
