"""Independent reference implementation of Clifford algebra over arbitrary coefficients.

A multivector is a dict {blade bitmask: coefficient}.  Nothing here is derived from the
library's code: signs come from canonical reordering of the generators, the metric from the
documented convention (degenerate generators first, then positive, then negative).
"""
import math
from functools import lru_cache

EPS64 = 2.220446049250313e-16
EPS32 = 1.1920928955078125e-07


class DomainError(Exception):
    """The generated case left the domain of the property (pole, negative sqrt, ...)."""


class F:
    """A real value v together with a magnitude m >= |v| such that the accumulated rounding
    error of any reasonable evaluation order is O(eps * m)."""
    __slots__ = ("v", "m")

    def __init__(self, v, m=None):
        self.v = v
        self.m = abs(v) if m is None else m

    def __add__(self, o):
        return F(self.v + o.v, self.m + o.m)

    def __neg__(self):
        return F(-self.v, self.m)

    def __mul__(self, o):
        return F(self.v * o.v, self.m * o.m)

    def scale(self, num, den=1):
        return F(self.v * num / den, self.m * abs(num) / abs(den))

    def is_zero(self):
        return self.m == 0

    def _chk(self):
        # require the relative condition number of the argument to be moderate
        if abs(self.v) * 1e4 < self.m or abs(self.v) < 1e-3:
            raise DomainError("ill-conditioned")

    def inv(self):
        self._chk()
        return F(1 / self.v, self.m / (self.v * self.v))

    def sqrt(self):
        if self.v <= 0:
            raise DomainError("sqrt of non-positive")
        self._chk()
        r = math.sqrt(self.v)
        return F(r, r + self.m / (2 * r))

    def _ang(self):
        if self.m > 1e4:
            raise DomainError("large angle")

    def sin(self):
        self._ang()
        return F(math.sin(self.v), 1 + self.m)

    def cos(self):
        self._ang()
        return F(math.cos(self.v), 1 + self.m)

    def tan(self):
        self._ang()
        c = math.cos(self.v)
        if abs(c) < 0.02:
            raise DomainError("pole")
        t = math.tan(self.v)
        return F(t, abs(t) + 1 + (1 + t * t) * self.m)


PRIME = (1 << 61) - 1


class M:
    """Element of the prime field 2^61-1: decides polynomial identities (Schwartz-Zippel)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v % PRIME

    def __add__(self, o):
        return M(self.v + o.v)

    def __neg__(self):
        return M(-self.v)

    def __mul__(self, o):
        return M(self.v * o.v)

    def scale(self, num, den=1):
        if den == 1:
            return M(self.v * num)
        return M(self.v * num * pow(den, PRIME - 2, PRIME))

    def is_zero(self):
        return self.v == 0

    def inv(self):
        if self.v == 0:
            raise DomainError("zero divisor")
        return M(pow(self.v, PRIME - 2, PRIME))

    def sqrt(self):
        raise DomainError("transcendental")
    sin = cos = tan = sqrt


def popcount(x):
    return bin(x).count("1")


class Algebra:
    """metric (p, v, r): r degenerate generators first, then p positive, then v negative."""

    def __init__(self, p, v, r, null_basis=False):
        self.p, self.v, self.r = p, v, r
        self.dim = p + v + r
        self.sq = [0] * r + [1] * p + [-1] * v
        self.null = null_basis
        self.ps = (1 << self.dim) - 1
        self._gp = {}
        if null_basis:
            self.ep = 1 << (self.dim - 2)
            self.en = 1 << (self.dim - 1)

    # ---- blades
    @staticmethod
    def reorder_sign(a, b):
        s = 0
        a >>= 1
        while a:
            s += popcount(a & b)
            a >>= 1
        return -1 if s & 1 else 1

    def bgp(self, a, b):
        k = (a, b)
        r = self._gp.get(k)
        if r is None:
            s = self.reorder_sign(a, b)
            c = a & b
            for i in range(self.dim):
                if c >> i & 1:
                    s *= self.sq[i]
            r = (a ^ b, s)
            self._gp[k] = r
        return r

    def bep(self, a, b):
        return (a | b, 0 if a & b else self.reorder_sign(a, b))

    def blc(self, a, b):
        e, s = self.bgp(a, b)
        return (e, s if popcount(e) == popcount(b) - popcount(a) else 0)

    def bip(self, a, b):
        e, s = self.bgp(a, b)
        if a == 0 or b == 0:
            return (0, 0)
        return (e, s if popcount(e) == abs(popcount(b) - popcount(a)) else 0)

    def bdual(self, a):
        c = self.ps ^ a
        return (c, self.reorder_sign(a, c))

    # ---- multivectors
    @staticmethod
    def _acc(out, e, c):
        if e in out:
            out[e] = out[e] + c
        else:
            out[e] = c

    def _prod(self, f, x, y):
        out = {}
        for a, ca in x.items():
            for b, cb in y.items():
                e, s = f(a, b)
                if s:
                    c = ca * cb
                    self._acc(out, e, c if s > 0 else -c)
        return out

    def gp(self, x, y):
        return self._prod(self.bgp, x, y)

    def ep_(self, x, y):
        return self._prod(self.bep, x, y)

    def lc(self, x, y):
        return self._prod(self.blc, x, y)

    def ip(self, x, y):
        return self._prod(self.bip, x, y)

    def add(self, x, y):
        out = dict(x)
        for e, c in y.items():
            self._acc(out, e, c)
        return out

    def neg(self, x):
        return {e: -c for e, c in x.items()}

    def scale(self, x, n, d=1):
        if n == 0:
            return {}
        return {e: c.scale(n, d) for e, c in x.items()}

    def rev(self, x):
        out = {}
        for e, c in x.items():
            k = popcount(e)
            out[e] = -c if (k * (k - 1) // 2) & 1 else c
        return out

    def dual(self, x):
        out = {}
        for e, c in x.items():
            d, s = self.bdual(e)
            out[d] = c if s > 0 else -c
        return out

    def rp(self, x, y):
        return self.dual(self.ep_(self.dual(x), self.dual(y)))

    def sandwich(self, a, b):
        return self.gp(self.gp(b, a), self.rev(b))

    def grade(self, x, g):
        return {e: c for e, c in x.items() if popcount(e) == g}

    # ---- change of basis between the user's null basis (no, ni) and orthonormal (ep, en)
    def to_natural(self, x):
        if not self.null:
            return x
        out = {}
        both = self.ep | self.en
        for e, c in x.items():
            k = e & both
            if k == 0 or k == both:
                self._acc(out, e, c)
            elif k == self.ep:      # no = (ep + en) / 2
                h = c.scale(1, 2)
                self._acc(out, e, h)
                self._acc(out, e ^ both, h)
            else:                   # ni = en - ep
                self._acc(out, e, c)
                self._acc(out, e ^ both, -c)
        return out

    def to_user(self, x):
        if not self.null:
            return x
        out = {}
        both = self.ep | self.en
        for e, c in x.items():
            k = e & both
            if k == 0 or k == both:
                self._acc(out, e, c)
            elif k == self.ep:      # ep = no - ni / 2
                self._acc(out, e, c)
                self._acc(out, e ^ both, c.scale(-1, 2))
            else:                   # en = no + ni / 2
                self._acc(out, e ^ both, c)
                self._acc(out, e, c.scale(1, 2))
        return out
