"""C08 C09 C10 C11 C12: the geometric models."""
from ..gen import Profile, PROD, LIN, SEL, FUNC
from ..pcheck import run, ALL
from ..hcheck import Harness

TAPE = "a case is a tape-decoded set of coordinates run through the public interface (double precision) and compared " \
       "with plain coordinate geometry in long double; distinct = different tape; non-trivial = "


def harness(ctx, file, quick, thorough, public, flags=("-O1",)):
    h = Harness(ctx, file, flags=flags, public=public).build()
    h.fuzz(ctx.n(quick, thorough))


def c08(ctx):
    ctx.rule(TAPE + "points not all zero / distinct; plus generated programs over the two conformal algebras")
    harness(ctx, "h_cga.cpp", 60000, 3000000, ("points", "flats", "motions", "general"))
    n = ctx.n(1100, 24000)
    ops = dict(ALL, **SEL)
    run(ctx, [
        (Profile(models={"cga": 3, "cga2": 2}, ops=ops, lits=0.25), n * 4 // 10),
        (Profile(models={"cga": 3, "cga2": 2}, ops=ops, lits=0.2, share=0.45, neardup=0.2, size=(3, 10), inputs=(1, 2)), n * 3 // 10),
        (Profile(models={"cga": 2, "cga2": 2}, ops=dict(ops, **FUNC), lits=0.2, roots=(1, 3)), n * 2 // 10),
        (Profile(models={"cga": 2, "cga2": 2}, ops=dict(SEL, mul=4, ep=3, add=3, sub=3, rev=2, dual=2), lits=0.4, zero=0.1), n // 10),
    ])


def c09(ctx):
    ctx.rule(TAPE + "the objects are not degenerate (distinct points, non-zero directions and normals)")
    harness(ctx, "h_pga.cpp", 500000, 8000000, ("roundtrip", "join2", "join3", "meet", "incidence"))


def c10(ctx):
    ctx.rule(TAPE + "the motion is not the identity and the object is not fixed by it")
    harness(ctx, "h_motion.cpp", 120000, 6000000, ("rotor", "translator", "compose", "vga", "floats"))


def c11(ctx):
    ctx.rule(TAPE + "the translational part is not zero")
    ctx.note("singular cases (no rotational part, zero norm) are excluded as the property states")
    harness(ctx, "h_explog.cpp", 60000, 1500000, ("exponential", "logarithm", "normal"))


def c12(ctx):
    ctx.rule(TAPE + "the objects are not degenerate")
    harness(ctx, "h_pga2.cpp", 600000, 8000000, ("roundtrip", "join", "meet", "incidence"))


CHECKS = {"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12}
