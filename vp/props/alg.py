"""C04 C05: blade products, symbolic multivectors."""
from .. import ast
from ..ast import N
from ..gen import Profile, PROD, LIN, SEL
from ..pcheck import run
from ..hcheck import Harness


def c04(ctx):
    ctx.rule("a case is a metric signature (all 164 with p+v+r = 1..8) and a left blade, swept exhaustively and compared "
             "against every right blade by reordering generator lists; an evaluation is one blade pair, non-trivial = "
             "the left blade is not the scalar; plus generated programs over entities of 1 to 4 blades of random "
             "signatures run through compute()")
    h = Harness(ctx, "h_cayley.cpp", flags=("-O1",)).build()
    h.fuzz(1, shards=1)
    n = ctx.n(500, 12000)
    ops = {"mul": 4, "ep": 3, "lc": 3, "ip": 3, "rp": 3, "dual": 2, "rev": 2, "sw": 1}
    run(ctx, [
        (Profile(models={"any": 1}, blades=1, inputs=(2, 2), size=(3, 3), ops=ops, roots=(3, 5), share=0, neardup=0), n // 2),
        (Profile(models={"any": 1}, blades=5, inputs=(2, 3), size=(3, 5), ops=ops, roots=(1, 2), share=0, neardup=0), n // 2),
    ])


def c05(ctx):
    ctx.rule("a case is a tape-decoded pair (or chain) of symbolic multivectors over random signatures, operated on by the "
             "library's functions and by exact polynomial arithmetic; non-trivial = operands with at least two terms; plus "
             "generated polynomial programs run through compute()")
    h = Harness(ctx, "h_mv.cpp", flags=("-O1",)).build()
    h.fuzz(ctx.n(160000, 8000000))
    n = ctx.n(500, 12000)
    ops = dict(PROD, **LIN)
    run(ctx, [(Profile(models={"custom": 2, "pga": 1, "vga": 1}, ops=ops, size=(3, 9)), n)], judge="value")


CHECKS = {"C04": c04, "C05": c05}
