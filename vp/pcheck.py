"""Checks whose cases are generated C++ programs compared with the reference algebra."""
import os, json, time, random
from . import ast, gen, models, runner, prog
from .ast import N
from .core import Violation, Inconclusive
from .ga import M, DomainError, popcount
from .gen import Profile, PROD, LIN, SEL, FUNC
from .prog import Program, compare, tu
from .runner import run_single, run_batch, shrink, Outcome

ALL = dict(PROD, **LIN)


# ------------------------------------------------------------------ judges
def judge_value(p, rows):
    return compare(p, rows)


def poly_only(p):
    return all(n.op in ast.BIN or n.op in ("in", "lit", "rev", "dual", "neg", "smul", "sdiv", "sadd", "saddr", "ssub",
                                           "ssubr", "comp", "grade", "sp") for n in ast.walk(p.roots))


def nonzero_elements(p, salt=0):
    """Elements whose coefficient is not identically zero, per root (random points of a 61-bit prime field)."""
    rng = random.Random("nz%d" % salt)
    out = [set() for _ in p.roots]
    for _ in range(2):
        env = [t.embed(M, [M(rng.getrandbits(61)) for _ in range(t.n)]) for t in p.tobjs()]
        for s, mv in zip(out, ast.evaluate(p.roots, p.model, M, env)):
            s.update(e for e, c in mv.items() if not c.is_zero())
    return out


def judge_structure(p, rows):
    v = compare(p, rows)
    if v:
        return v
    want = nonzero_elements(p)
    for ri, (members, _) in enumerate(rows):
        for mi, (got, w) in enumerate(zip(members, want)):
            extra = [e for e, _ in got if e not in w]
            if extra:
                return ("identically-zero", ri, "member %d: elements %s are returned although their coefficient is "
                        "identically zero" % (mi, extra))
            missing = sorted(w - {e for e, _ in got})
            if missing:
                return ("missing-element", ri, "member %d: elements %s are missing" % (mi, missing))
    return None


JUDGES = {"value": judge_value, "structure": judge_structure}


# ------------------------------------------------------------------ classification
def features(p):
    order = ast.walk(p.roots)
    refs = {}
    for n in order:
        for c in n.a:
            refs[id(c)] = refs.get(id(c), 0) + 1
    for r in p.roots:
        refs[id(r)] = refs.get(id(r), 0) + 1
    f = set()
    f.add("model:" + (p.model.key if not p.model.key.startswith("m") else "custom"))
    f.add("T:" + p.T)
    for n in order:
        f.add("op:" + n.op)
        if n.a and refs[id(n)] > 1:
            f.add("shared-subexpression")
    seen = {}
    for n in order:
        if n.a:
            k = json.dumps(ast.ser([n]))
            if k in seen and seen[k] is not n:
                f.add("repeated-subexpression")
            seen[k] = n
    ops = {n.op for n in order}
    if ops & set(ast.FUN):
        f.add("function")
    if ops & {"div", "idiv", "cdivr", "cdivl"}:
        f.add("division")
    if ops & {"comp", "grade", "sp"}:
        f.add("selection")
    if ops & {"cmul", "cmulr", "cdivr", "cdivl"}:
        f.add("constant")
    if "lit" in ops:
        f.add("literal")
    if len(p.roots) > 1:
        f.add("tuple")
    f.add("nodes:%s" % ("1-3" if len(order) < 4 else "4-7" if len(order) < 8 else "8-15" if len(order) < 16 else "16+"))
    return f


def nontrivial(p, rows, f, need):
    nops = sum(1 for n in ast.walk(p.roots) if n.a)
    if nops < 2:
        return False
    if need and not (f & need):
        return False
    return any(v != 0 for members, _ in (rows or []) for m in members for _, v in m)


# ------------------------------------------------------------------ main loop
def run(ctx, plan, judge="value", need=None, cxx="g++", flags=("-O0",), group=10, accept=None, label="", corpus=True):
    """plan: list of (Profile, count).  Generates, compiles, runs and judges every program."""
    jf = JUDGES[judge]
    control(ctx, cxx, flags)
    if corpus:
        progs = []
        for d in ctx.corpus():
            if d.get("kind") == "program" and d.get("judge", "value") == judge:
                progs.append(Program.from_json(d["program"]))
        if progs:
            drive(ctx, progs, jf, judge, need, cxx, flags, group, "corpus")
    progs = []
    rng = ctx.rng("programs", label, cxx, *flags)
    for prof, count in plan:
        k = 0
        tries = 0
        todo = gen.combos(prof) if prof.systematic else None
        while k < count:
            tries += 1
            if tries > 60 * count + 1000:
                ctx.note("generator produced only %d of %d programs for one profile" % (k, count))
                break
            p = gen.program(rng, prof, todo[tries % len(todo)] if todo else None)
            if accept and not accept(p):
                continue
            progs.append(p)
            k += 1
    rng.shuffle(progs)
    drive(ctx, progs, jf, judge, need, cxx, flags, group, "generated", accept)
    return progs


def drive(ctx, progs, jf, jname, need, cxx, flags, group, src, accept=None):
    want = len(progs)
    got = 0
    bad = []
    for p, o in run_batch(progs, ctx.work, cxx, flags, jf, group=group, deadline=ctx.deadline, stop_on_bad=True):
        got += 1
        if o.status == "skip":
            ctx.skipped += 1
            ctx.cls("skip:" + o.reason)
            continue
        ctx.evaluations += 1
        if o.status == "ok":
            f = features(p)
            ctx.cls(*f)
            ctx.cls("source:" + src)
            if nontrivial(p, o.rows, f, need):
                ctx.keys.add(p.key())
                if len(ast.walk(p.roots)) >= 6:
                    ctx.sample({"program": p.text(), "row0_inputs": p.data[0],
                                "row0_result": [[list(x) for x in m] for m in o.rows[0][0]]}, 8)
        else:
            bad.append((p, o))
    if bad:
        bad.sort(key=lambda b: len(b[0].text()))
        for p, o in bad[:4]:
            report(ctx, p, o, jf, jname, cxx, flags, accept)
        ctx.note("a failure did not reproduce: " + bad[0][1].detail)
        ctx.skipped += len(bad)
    elif got < want:
        ctx.note("time limit: %d of %d programs run" % (got, want))


def control(ctx, cxx="g++", flags=("-O0",)):
    if not runner.control_compiles(ctx.work):
        # the headers do not even compile for the simplest program: nothing can be decided
        raise Inconclusive("the simplest program against the public headers does not compile or run")


def report(ctx, p, o, jf, jname, cxx, flags, accept=None):
    """confirm, shrink, confirm 3x, raise"""
    again = run_single(p, ctx.work, ctx.work.name("c"), cxx, flags, jf)
    if again.status != "bad":
        return
    control(ctx)
    q, qo = shrink(p, again, ctx.work, budget=60, judge=jf, cxx=cxx, flags=flags, accept=accept)
    for cand, co in ((q, qo), (p, again)):
        outs = [run_single(cand, ctx.work, ctx.work.name("c"), cxx, flags, jf) for _ in range(3)]
        if all(x.status == "bad" for x in outs):
            o = outs[0]
            raise Violation({"property": ctx.prop, "kind": "program", "judge": jname, "program": cand.to_json(),
                             "cxx": cxx, "flags": list(flags), "reason": o.reason, "row": o.row, "detail": o.detail,
                             "text": cand.text(), "source": tu([cand])},
                            "%s: %s  [%s]" % (o.reason, o.detail, cand.text()))


def replay_program(ctx, d):
    p = Program.from_json(d["program"])
    o = run_single(p, ctx.work, "replay", d.get("cxx", "g++"), d.get("flags", ["-O0"]), JUDGES[d.get("judge", "value")])
    if o.status == "bad":
        return "%s: %s" % (o.reason, o.detail)
    if o.status == "skip":
        raise Inconclusive(o.reason)
    return None
