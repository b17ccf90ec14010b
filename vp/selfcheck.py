"""Tests of the oracle itself (setup_cmd): the reference algebra against the axioms that define a Clifford algebra."""
import random
from .ga import Algebra, M, popcount
from . import models


def naive(alg, a, b):
    """product of two blades by bubble sorting the word of generators"""
    w = [i for i in range(alg.dim) if a >> i & 1] + [i for i in range(alg.dim) if b >> i & 1]
    s = 1
    while True:
        for i in range(len(w) - 1):
            if w[i] > w[i + 1]:
                w[i], w[i + 1] = w[i + 1], w[i]
                s = -s
                break
            if w[i] == w[i + 1]:
                s *= alg.sq[w[i]]
                del w[i:i + 2]
                break
        else:
            break
    return sum(1 << i for i in w), s


def run():
    rng = random.Random(1)
    for p, v, r in [(3, 0, 1), (4, 1, 0), (2, 0, 1), (3, 0, 0), (1, 2, 2), (0, 3, 0), (2, 2, 1)]:
        alg = Algebra(p, v, r)
        n = 1 << alg.dim
        for a in range(n):
            for b in range(n):
                e, s = naive(alg, a, b)
                ge, gs = alg.bgp(a, b)
                assert gs == s and (s == 0 or ge == e), (p, v, r, a, b)
        mv = lambda: {rng.randrange(n): M(rng.getrandbits(61)) for _ in range(4)}
        eq = lambda x, y: all(c.is_zero() for c in alg.add(x, alg.neg(y)).values())
        for _ in range(20):
            x, y, z = mv(), mv(), mv()
            assert eq(alg.gp(alg.gp(x, y), z), alg.gp(x, alg.gp(y, z)))
            assert eq(alg.gp(x, alg.add(y, z)), alg.add(alg.gp(x, y), alg.gp(x, z)))
            assert eq(alg.rev(alg.gp(x, y)), alg.gp(alg.rev(y), alg.rev(x)))
            assert eq(alg.ep_(alg.ep_(x, y), z), alg.ep_(x, alg.ep_(y, z)))
        for a in range(n):
            d, s = alg.bdual(a)
            assert alg.bep(a, d) == (alg.ps, s)
    for m in (models.cga, models.cga2):
        alg = m.alg
        one = M(1)
        for e in range(1 << alg.dim):
            x = {e: one}
            y = alg.to_user(alg.to_natural(x))
            assert {k: c.v for k, c in y.items() if c.v} == {e: 1}
        no, ni = alg.to_natural({alg.ep: one}), alg.to_natural({alg.en: one})
        val = lambda x: {k: c.v for k, c in x.items() if c.v}
        assert val(alg.ip(no, no)) == {} and val(alg.ip(ni, ni)) == {}
        assert val(alg.ip(no, ni)) == {0: M(-1).v}
