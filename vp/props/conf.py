"""C17: the same computation written, typed and compiled differently."""
import json, random, time
from concurrent.futures import ThreadPoolExecutor
from .. import ast, gen, runner, pcheck
from ..ast import N
from ..core import Violation
from ..gen import Profile, PROD, LIN, SEL, FUNC
from ..pcheck import ALL, control
from ..prog import Program, Build, tu, parse, compare, JOBS
from ..runner import first_error

SAN = ("-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
CONFIGS = {
    "g++ -O0": ("g++", ("-O0",)),
    "g++ -O2": ("g++", ("-O2",)),
    "g++ -O3": ("g++", ("-O3",)),
    "g++ -Os": ("g++", ("-Os",)),
    "g++ debug": ("g++", ("-O0", "-DGAL_DEBUG")),
    "g++ sanitizers": ("g++", SAN),
    "clang++ -O0": ("clang++", ("-O0",)),
    "clang++ -O2": ("clang++", ("-O2",)),
    "clang++ debug": ("clang++", ("-O1", "-DGAL_DEBUG")),
    "clang++ sanitizers": ("clang++", SAN),
    "g++ c++20": ("g++", ("-O0", "-std=c++2a")),
}
BASE = "g++ -O0"


def permuted(p, order):
    """the same computation with compute()'s arguments and the lambda's parameters in another order"""
    return p.with_(params=list(order))


def widened(p, extra, seed):
    """the same computation with unused inputs added in front, between and behind"""
    rng = random.Random(seed)
    types = list(p.types) + list(extra)
    data = []
    for row in p.data:
        row = list(row)
        for k in extra:
            row += [rng.choice([1.0, -2.0, 0.5]) for _ in range(p.model.type(k).nraw)]
        data.append(row)
    order = list(p.params or range(len(p.types)))
    for i in range(len(p.types), len(types)):
        order.insert(rng.randint(0, len(order)), i)
    return p.with_(types=types, data=data, params=order)


def variant(p, spec):
    """spec: {perm, extra, seed, T, lets}; deterministic, also on a shrunk base"""
    q = p
    n = len(p.types)
    if spec.get("perm") == "reverse":
        q = permuted(q, range(n - 1, -1, -1))
    elif spec.get("perm") == "rotate":
        q = permuted(q, list(range(1, n)) + [0])
    elif spec.get("perm") == "shuffle":
        o = list(range(n))
        random.Random(spec["seed"]).shuffle(o)
        q = permuted(q, o)
    if spec.get("extra"):
        q = widened(q, spec["extra"], spec["seed"])
    if spec.get("T"):
        q = q.with_(T=spec["T"])
    if spec.get("lets") is not None:
        q = q.with_(lets=spec["lets"])
    return q


def specs(rng, p):
    seed = rng.randrange(1 << 30)
    named = [k for k in p.model.types if k != "raw"] + ["ent:0", "ent:1", "ent:0,1", "ent:"]
    out = [{"perm": rng.choice(["reverse", "rotate", "shuffle"]), "seed": seed},
           {"extra": [rng.choice(named) for _ in range(rng.randint(1, 3))], "seed": seed + 1},
           {"T": rng.choice(["float", "float", "long double"] if p.T == "double" else ["double", "double", "long double"])},
           {"perm": "shuffle", "extra": [rng.choice(named)], "seed": seed + 2, "lets": not p.lets}]
    if len(p.types) < 2:
        out[0] = {"perm": "reverse", "seed": seed, "extra": ["scalar"]}
    return out


def shape(rows):
    return [[[e for e, _ in m] for m in members] for members, _ in rows]


def build(ctx, ps, cfg):
    cxx, flags = CONFIGS[cfg]
    return Build(tu(ps), ctx.work.dir, ctx.work.name("v"), cxx, flags, timeout=400)


def run_one(ctx, p, cfg):
    """('rows', rows) | ('bad', reason, detail) | ('skip', why)"""
    b = build(ctx, [p], cfg)
    if b.kind in ("timeout", "infra"):
        return ("skip", b.kind)
    if b.kind == "error":
        return ("bad", "does-not-compile", first_error(b.err))
    res, end = parse(b.out)
    if b.kind == "runtimeout" or b.rc != 0 or not end:
        return ("bad", "crashed", "%s: %s" % (b.rc, " ".join(b.err.split())[:300]))
    rows = res.get(0, [])
    v = compare(p, rows)
    if v:
        return ("bad", v[0], v[2])
    return ("rows", rows)


def disagreement(ctx, p, spec, cfg):
    """None, or (reason, detail): variant `spec` of p under configuration cfg against p under the base configuration"""
    a = run_one(ctx, p, BASE)
    if a[0] == "skip":
        return None
    q = variant(p, spec)
    b = run_one(ctx, q, cfg)
    if b[0] == "skip":
        return None
    if a[0] == "bad" and b[0] == "bad":
        return (b[1], b[2])
    if b[0] == "bad":
        return (b[1], b[2])
    if a[0] == "bad":
        return (a[1], a[2])
    if shape(a[1]) != shape(b[1]):
        return ("elements", "returns elements %s instead of %s" % (shape(b[1])[0], shape(a[1])[0]))
    return None


def report(ctx, p, spec, cfg, budget=60):
    first = disagreement(ctx, p, spec, cfg)
    if not first:
        return
    control(ctx)
    t0 = time.time()
    best, seen, prog = p, set(), True
    while prog and time.time() - t0 < budget:
        prog = False
        cands = []
        for c in runner.candidates(best):
            try:
                if not runner.valid(c):
                    continue
                c = runner.cleanup(c)
            except Exception:
                continue
            k = json.dumps(c.to_json(), sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
        for i in range(0, len(cands), JOBS):
            if time.time() - t0 > budget:
                break
            with ThreadPoolExecutor(JOBS) as ex:
                rs = list(ex.map(lambda c: disagreement(ctx, c, spec, cfg), cands[i:i + JOBS]))
            hit = [c for c, r in zip(cands[i:i + JOBS], rs) if r and r[0] == first[0]]
            if hit:
                best, prog = hit[0], True
                break
    for c in (best, p):
        rs = [disagreement(ctx, c, spec, cfg) for _ in range(2)]
        if all(rs):
            raise Violation({"property": ctx.prop, "kind": "variant", "program": c.to_json(), "spec": spec, "config": cfg,
                             "reason": rs[0][0], "detail": rs[0][1], "text": c.text(), "variant_text": variant(c, spec).text(),
                             "source": tu([c, variant(c, spec)])},
                            "%s under %s, variant %s: %s  [%s]" % (rs[0][0], cfg, spec, rs[0][1], c.text()))


def replay(ctx, d):
    r = disagreement(ctx, Program.from_json(d["program"]), d["spec"], d["config"])
    return "%s: %s" % r if r else None


def bundle_run(ctx, bundles, cfg):
    """bundles: [(base, [spec])]; returns list over bundles of list over (base + variants) of rows | reason"""
    ps, index = [], []
    for p, sp in bundles:
        vs = [p] + [variant(p, s) for s in sp]
        index.append((len(ps), len(vs)))
        ps += vs
    b = build(ctx, ps, cfg)
    res, end = parse(b.out) if b.kind == "ok" else ({}, False)
    if b.kind != "ok" or b.rc != 0 or not end:
        if len(bundles) > 1:
            out = []
            for x in bundles:
                out += bundle_run(ctx, [x], cfg)
            return out
        if b.kind in ("timeout", "infra"):
            return [["skip"] * len(ps)]
        # find the member that fails
        out = []
        for q in ps:
            r = run_one(ctx, q, cfg)
            out.append(r[1] if r[0] == "rows" else "skip" if r[0] == "skip" else "%s: %s" % (r[1], r[2]))
        return [out]
    out = []
    for start, n in index:
        one = []
        for k in range(n):
            rows = res.get(start + k, [])
            v = compare(ps[start + k], rows)
            one.append("%s: %s" % (v[0], v[2]) if v else rows)
        out.append(one)
    return out


def c17(ctx):
    ctx.rule("a case is one generated program together with a variant (arguments permuted, unused inputs added, value type "
             "switched, let-bindings inlined) compiled under one of %d compiler configurations; its elements must equal "
             "those of the original under g++ -O0 and its values the reference; non-trivial = at least two operators and "
             "a non-zero result; distinct = different program, variant or configuration" % len(CONFIGS))
    ctx.note("all inputs of one computation have the same value type")
    control(ctx)
    for d in ctx.corpus():
        if d.get("kind") == "variant":
            ctx.evaluations += 1
            p = Program.from_json(d["program"])
            if disagreement(ctx, p, d["spec"], d["config"]):
                report(ctx, p, d["spec"], d["config"])
    rng = ctx.rng("conf")
    ops = dict(ALL, **SEL)
    profs = [Profile(ops=ops, inputs=(2, 4), size=(2, 8)), Profile(ops=dict(ops, **FUNC), inputs=(2, 4), size=(2, 8)),
             Profile(ops=ops, inputs=(2, 3), share=0.4, neardup=0.2, size=(3, 10)),
             Profile(ops=dict(ops, **FUNC), inputs=(2, 3), roots=(2, 3), size=(1, 6), zero=0.05)]
    jobs = []
    plan = {BASE: ctx.n(96, 2400)}
    for cfg, q, t in (("g++ -O2", 40, 900), ("g++ -O3", 16, 600), ("g++ -Os", 0, 300), ("g++ debug", 24, 500),
                      ("g++ sanitizers", 40, 1200), ("clang++ -O0", 48, 1200), ("clang++ -O2", 24, 600),
                      ("clang++ debug", 16, 400), ("clang++ sanitizers", 16, 900), ("g++ c++20", 16, 400)):
        if (q if ctx.quick else t):
            plan[cfg] = ctx.n(q, t)
    for cfg, n in plan.items():
        group = 3 if "sanit" not in cfg and "-O" in cfg else 2
        bs = []
        for i in range(n):
            p = gen.program(rng, profs[i % len(profs)])
            bs.append((p, specs(rng, p)))
        for i in range(0, n, group):
            jobs.append((cfg, bs[i:i + group]))
    rng.shuffle(jobs)
    bad = []

    def go(job):
        cfg, bs = job
        if bad or time.time() > ctx.deadline:
            return job, None, None
        if cfg == BASE:
            r = bundle_run(ctx, bs, BASE)
            return job, r, r
        return job, bundle_run(ctx, [(p, []) for p, _ in bs], BASE), bundle_run(ctx, bs, cfg)
    with ThreadPoolExecutor(JOBS) as ex:
        for (cfg, bs), ref, out in ex.map(go, jobs):
            if ref is None:
                if not bad:
                    ctx.note("time limit reached")
                continue
            for (p, sp), r, o in zip(bs, ref, out):
                if r[0] == "skip" or "skip" in o:
                    ctx.skipped += 1
                    continue
                for i, x in enumerate(o):
                    spec = {} if i == 0 else sp[i - 1]
                    ctx.evaluations += 1
                    ctx.cls("config:" + cfg, "variant:" + ("+".join(sorted(set(spec) - {"seed"})) or "none"))
                    if isinstance(x, str) or isinstance(r[0], str) or shape(x) != shape(r[0]):
                        bad.append((p, spec, cfg))
                    elif pcheck.nontrivial(p, x, set(), None):
                        ctx.keys.add("%s %s %s" % (p.key(), cfg, json.dumps(spec, sort_keys=True)))
                        if i and len(ast.walk(p.roots)) >= 6:
                            ctx.sample({"program": p.text(), "variant": variant(p, spec).text(), "config": cfg}, 6)
    bad.sort(key=lambda b: len(b[0].text()))
    for p, spec, cfg in bad[:4]:
        report(ctx, p, spec, cfg)
    if bad:
        ctx.note("failures that did not reproduce: %d" % len(bad))
        ctx.skipped += len(bad)


CHECKS = {"C17": c17}
