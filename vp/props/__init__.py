"""One check per property."""
from .. import pcheck, hcheck, gcheck
from . import expr, nums, alg, store, geom, conf

CHECKS = {}
for m in (expr, nums, alg, store, geom, conf):
    CHECKS.update(m.CHECKS)


def replay(ctx, d):
    k = d["kind"]
    if k == "program":
        return pcheck.replay_program(ctx, d)
    if k == "tape":
        return hcheck.replay_tape(ctx, d)
    if k == "harness-compile":
        return hcheck.replay_compile(ctx, d)
    if k == "gen":
        return gcheck.replay(ctx, d)
    if k == "variant":
        return conf.replay(ctx, d)
    raise KeyError(k)
