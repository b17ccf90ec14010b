"""Check driver: tiers, seeds, evidence, corpus, replay files, verdict lines."""
import os, sys, json, time, random, glob, hashlib, traceback
from . import prog, runner
from .prog import Program

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Inconclusive(Exception):
    """The check could not decide (toolchain failure, tree that does not compile at all)."""


class Violation(Exception):
    def __init__(self, replay, summary):
        Exception.__init__(self, summary)
        self.replay, self.summary = replay, summary


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = runner.Work()
        self.evaluations = 0
        self.keys = set()
        self.extra_nt = 0        # distinct non-trivial cases counted by harness processes
        self.samples = []
        self.classes = {}
        self.notes = []
        self.rules = []
        self.skipped = 0
        self.extra = {}
        self.limit = 330 if self.quick else 7200
        self.scale = float(os.environ.get("VP_SCALE", "1"))

    # -------------------------------------------------------------- helpers
    def rng(self, *salt):
        return random.Random("%d|%s|%s" % (self.seed, self.prop, "|".join(map(str, salt))))

    def n(self, quick, thorough):
        return max(1, int((quick if self.quick else thorough) * self.scale))

    @property
    def deadline(self):
        return self.t0 + self.limit

    def left(self):
        return self.deadline - time.time()

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def cls(self, *names):
        for n in names:
            self.classes[n] = self.classes.get(n, 0) + 1

    def sample(self, s, cap=10):
        if len(self.samples) < cap:
            self.samples.append(s)

    def count(self, n, nontrivial_keys):
        self.evaluations += n
        self.keys.update(nontrivial_keys)

    # -------------------------------------------------------------- evidence
    def write_evidence(self, violation=None):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": dict({
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.keys) + self.extra_nt,
                "rule": "; ".join(self.rules),
                "samples": self.samples,
                "classes": dict(sorted(self.classes.items())),
                "skipped_no_verdict": self.skipped,
            }, **self.extra),
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.notes,
            "violations": [violation] if violation else [],
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)

    def save_replay(self, d):
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        return path

    def corpus(self):
        out = []
        for f in sorted(glob.glob(os.path.join(ROOT, "corpus", self.prop, "*.json"))):
            with open(f) as fh:
                d = json.load(fh)
            d["_file"] = os.path.relpath(f, ROOT)
            out.append(d)
        return out


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines 'known: property=<id> replay-key=<hash> <text>' of known_findings.txt"""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(None, 2)[2]
                k, _, text = rest.partition(" ")
                out[k.replace("key=", "")] = text.strip()
    return out


def run_check(prop, tier, seed):
    from . import props
    ctx = Ctx(prop, tier, seed)
    try:
        try:
            props.CHECKS[prop](ctx)
        except Violation as v:
            path = ctx.save_replay(v.replay)
            print("violated: %s" % v.summary)
            ctx.write_evidence({"summary": v.summary, "replay": path})
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.stdout.flush()
            return 1
        if ctx.evaluations == 0:
            raise Inconclusive("no case was evaluated")
        if ctx.skipped > ctx.evaluations:
            raise Inconclusive("%d cases gave no verdict, %d did" % (ctx.skipped, ctx.evaluations))
        for k, text in known_findings(prop).items():
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        ctx.write_evidence()
        for x in ctx.notes:
            print("note: " + x[:400])
        print("ok property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
            prop, tier, seed, ctx.evaluations, len(ctx.keys) + ctx.extra_nt, time.time() - ctx.t0))
        return 0
    except Inconclusive as e:
        ctx.note("inconclusive: %s" % e)
        ctx.write_evidence()
        print("INCONCLUSIVE property=%s: %s" % (prop, e))
        return 2
    finally:
        ctx.work.close()


def replay(path):
    from . import props
    d = json.load(open(path))
    ctx = Ctx(d["property"], "quick", int(os.environ.get("VERIF_SEED", "1")))
    try:
        r = props.replay(ctx, d)
    finally:
        ctx.work.close()
    if r is None:
        print("replay: property %s holds on this case" % d["property"])
        return 0
    print("replay: %s" % r)
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def selftest():
    """setup_cmd: nothing is prebuilt (every check compiles /repo's headers itself); the oracle is tested against the
    defining relations of the algebra, so that a broken model cannot go unnoticed."""
    from . import ga, selfcheck
    selfcheck.run()
    print("selftest ok")
    return 0


def main(argv):
    sys.setrecursionlimit(20000)
    if argv[:1] == ["selftest"]:
        return selftest()
    if len(argv) >= 2 and argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
        i += 2
    return run_check(prop, tier, seed)
