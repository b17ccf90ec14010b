"""Generated programs: emission to C++ translation units, compilation against /repo's current
headers, execution, comparison with the reference, and shrinking."""
import os, sys, json, subprocess, tempfile, shutil, time, hashlib, re
from concurrent.futures import ThreadPoolExecutor
from . import models, ast
from .ga import F, EPS64, EPS32, DomainError

REPO = os.environ.get("VP_REPO", "/repo")
INC = os.path.join(REPO, "public")
JOBS = int(os.environ.get("VP_JOBS", "8"))
TOLC = 4000.0

PRELUDE = r'''
#include <cstdio>
#include <cstring>
#include <tuple>
#include <array>
#include <cmath>
#include "gal/engine.hpp"
%s
namespace vp {
using long_double = long double;
template <typename A, typename T, gal::elem_t... E>
void emit1(gal::entity<A, T, E...> const& r) {
  std::printf(" [%%zu", sizeof...(E));
  gal::elem_t es[] = {E..., 0};
  for (size_t i = 0; i != sizeof...(E); ++i) std::printf(" %%u:%%a", (unsigned)es[i], (double)r[i]);
  std::printf("]");
}
template <typename... R> void emit(std::tuple<R...> const& t) { std::apply([](auto const&... m) { (emit1(m), ...); }, t); }
template <typename A, typename T, gal::elem_t... E> void emit(gal::entity<A, T, E...> const& r) { emit1(r); }
template <typename D> bool same(D const& a, D const& b) { return std::memcmp(&a, &b, sizeof(D)) == 0; }
}
'''


class Program:
    def __init__(self, model, T, types, roots, data, lets=True, tuple_kind=0, tag="", params=None):
        self.model = models.model(model) if isinstance(model, str) else model
        self.T, self.types, self.roots, self.data = T, list(types), list(roots), data
        self.lets, self.tuple_kind, self.tag = lets, tuple_kind, tag
        self.params = params     # optional permutation of lambda/compute argument order

    def tobjs(self):
        return [self.model.type(k) for k in self.types]

    def to_json(self):
        return {"model": self.model.key, "T": self.T, "types": self.types, "expr": ast.ser(self.roots),
                "data": self.data, "lets": self.lets, "tuple_kind": self.tuple_kind, "tag": self.tag,
                "params": self.params}

    @staticmethod
    def from_json(d):
        return Program(d["model"], d["T"], d["types"], ast.deser(d["expr"]), d["data"], d.get("lets", True),
                       d.get("tuple_kind", 0), d.get("tag", ""), d.get("params"))

    def with_(self, **kw):
        p = Program(self.model, self.T, self.types, self.roots, self.data, self.lets, self.tuple_kind, self.tag,
                    self.params)
        for k, v in kw.items():
            setattr(p, k, v)
        return p

    @property
    def cT(self):
        return self.T.replace("long double", "vp::long_double")

    def text(self):
        order = self.params or range(len(self.types))
        return "%s<%s>(%s){%s}" % (self.model.key, self.T, ", ".join("%s x%d" % (self.types[i], i) for i in order),
                                   ast.body(self.roots, self.model.ns, self.lets, self.tuple_kind).strip())

    def key(self):
        return hashlib.sha1(json.dumps([self.model.key, self.types, ast.ser(self.roots)]).encode()).hexdigest()

    def fn(self, name):
        ts = self.tobjs()
        order = self.params or list(range(len(ts)))
        lines = ["static void %s() {" % name, "  using namespace gal; using namespace %s;" % self.model.ns]
        nraw = sum(t.nraw for t in ts)
        rows = ", ".join("{%s}" % ", ".join(lit(x) for x in row) for row in self.data)
        if nraw:
            lines.append("  static const %s D[%d][%d] = {%s};" % (self.cT, len(self.data), nraw, rows))
        lines.append("  for (int v = 0; v != %d; ++v) {" % len(self.data))
        if nraw:
            lines.append("    auto const& d = D[v]; (void)d;")
        off = 0
        for i, t in enumerate(ts):
            ty, ctor = t.make(self.cT, ["d[%d]" % (off + j) for j in range(t.nraw)])
            off += t.nraw
            lines.append("    %s a%d = %s; %s const c%d = a%d;" % (ty, i, ctor, ty, i, i))
        lines.append("    auto r = %s([](%s) { %s }, %s);" % (
            self.model.compute, ", ".join("[[maybe_unused]] auto x%d" % i for i in order),
            ast.body(self.roots, self.model.ns, self.lets, self.tuple_kind), ", ".join("a%d" % i for i in order)))
        chk = " && ".join("vp::same(a%d, c%d)" % (i, i) for i, t in enumerate(ts) if t.n) or "true"
        if self.T == "long double":
            chk = "true"        # objects are compared by their bytes, and long double has padding
        lines.append('    std::printf("R %%d", v); vp::emit(r); std::printf(" %%d\\n", int(%s));' % chk)
        lines.append("  }\n}")
        return "\n".join(lines)

    # ---------------------------------------------------------------- oracle
    def envs(self, ring=F):
        ts = self.tobjs()
        out = []
        for row in self.data:
            env, off = [], 0
            for t in ts:
                raw = row[off:off + t.nraw]
                off += t.nraw
                if self.T == "float":
                    raw = [f32(x) for x in raw]
                env.append(t.embed(ring, [ring(x) for x in t.expand(raw)]))
            out.append(env)
        return out

    def expected(self):
        """Reference result per data row: list over rows of list over roots of {blade: F}."""
        return [ast.evaluate(self.roots, self.model, F, env) for env in self.envs()]

    def tol(self, m):
        return TOLC * (EPS32 if self.T == "float" else EPS64) * m + 1e-300


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


def lit(x):
    if isinstance(x, int):
        return "%d" % x
    return repr(float(x))


def tu(programs, extra_headers=()):
    hs = []
    for p in programs:
        if p.model.header not in hs:
            hs.append(p.model.header)
        if any(k == "vpoint" for k in p.types) and "gal/vga.hpp" not in hs:
            hs.append("gal/vga.hpp")
        if p.model.header == "gal/engine.hpp" and "gal/geometric_algebra.hpp" not in hs:
            hs.append("gal/geometric_algebra.hpp")
    out = [PRELUDE % "\n".join('#include "%s"' % h for h in list(hs) + list(extra_headers))]
    for i, p in enumerate(programs):
        out.append("// %d: %s" % (i, p.text()))
        out.append(p.fn("case_%d" % i))
    out.append("int main() {")
    for i in range(len(programs)):
        out.append('  std::printf("C %d\\n"); std::fflush(stdout); case_%d();' % (i, i))
    out.append('  std::printf("END\\n"); return 0; }')
    return "\n".join(out)


LINE = re.compile(r"\[(\d+)([^\]]*)\]")


def parse(out):
    """stdout -> {case: [ (members, unchanged) per row ]}, finished"""
    res, cur, end = {}, None, False
    for line in out.splitlines():
        if line.startswith("C "):
            cur = int(line[2:])
            res[cur] = []
        elif line.startswith("R ") and cur is not None:
            ms = []
            for m in LINE.finditer(line):
                items = m.group(2).split()
                ms.append([(int(t.split(":")[0]), float.fromhex(t.split(":")[1])) for t in items])
            res[cur].append((ms, line.rstrip().endswith(" 1")))
        elif line == "END":
            end = True
    return res, end


FLAGS_GCC = ["-std=c++17", "-w", "-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=4000000",
             "-fconstexpr-depth=4096", "-ftemplate-depth=4096"]
FLAGS_CLANG = ["-std=c++17", "-w", "-fconstexpr-steps=1000000000", "-fconstexpr-depth=4096", "-ftemplate-depth=4096",
               "-fbracket-depth=2048"]


class Build:
    """Compile one source text; .ok/.kind in {'ok','error','timeout','infra'}"""

    def __init__(self, src, workdir, name, cxx="g++", flags=("-O0",), timeout=240, run_timeout=60, run=True):
        self.path = os.path.join(workdir, name + ".cpp")
        exe = os.path.join(workdir, name + ".exe")
        with open(self.path, "w") as f:
            f.write(src)
        base = FLAGS_CLANG if "clang" in cxx else FLAGS_GCC
        cmd = [cxx] + base + list(flags) + ["-I", INC, self.path, "-o", exe]
        self.out, self.rc, self.kind, self.err = "", None, "ok", ""
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.kind = "timeout"
            self.ctime = time.time() - t0
            return
        self.ctime = time.time() - t0
        if r.returncode != 0:
            self.err = r.stderr.decode(errors="replace")
            # a compiler killed by the system is not a verdict about the program
            bad = r.returncode < 0 or "Killed" in self.err or "out of memory" in self.err.lower() \
                or "cannot allocate" in self.err.lower() or "No space left" in self.err
            self.kind = "infra" if bad else "error"
            return
        if not run:
            return
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=run_timeout)
            self.out, self.rc, self.err = r.stdout.decode(errors="replace"), r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            self.kind = "runtimeout"
            self.out = (e.stdout or b"").decode(errors="replace")
        finally:
            try:
                os.unlink(exe)
            except OSError:
                pass


class Verdict:
    """Outcome for one program: None = held, else a reason string."""

    def __init__(self, program, reason, row=None, detail=None, result=None):
        self.program, self.reason, self.row, self.detail, self.result = program, reason, row, detail, result


def compare(p, rows, exp=None, structural=None):
    """Compare C++ rows with the reference.  Returns (reason, row, detail) or None."""
    if exp is None:
        exp = p.expected()
    if len(rows) != len(p.data):
        return ("crashed", len(rows), "program ended after %d of %d rows" % (len(rows), len(p.data)))
    for ri, ((members, same), refs) in enumerate(zip(rows, exp)):
        if not same:
            return ("input-modified", ri, "an input object changed during compute")
        if len(members) != len(refs):
            return ("arity", ri, "expected %d results, got %d" % (len(refs), len(members)))
        for mi, (got, ref) in enumerate(zip(members, refs)):
            seen = {}
            last = -1
            for e, v in got:
                if e in seen or e <= last:
                    return ("element-order", ri, "member %d: elements %s" % (mi, [x for x, _ in got]))
                seen[e] = v
                last = e
            for e in set(seen) | set(ref):
                g = seen.get(e, 0.0)
                r = ref.get(e)
                rv, rm = (r.v, r.m) if r is not None else (0.0, 0.0)
                if not (abs(g - rv) <= p.tol(max(rm, abs(rv)))):
                    # structural zeros may be computed numerically: allow tiny residue
                    return ("value", ri, "member %d element %d: got %.17g expected %.17g (tol %.3g)" %
                            (mi, e, g, rv, p.tol(max(rm, abs(rv)))))
    return None


CONTROL = '''#include "gal/pga.hpp"
#include <cstdio>
int main() { gal::pga::plane<double> p{1, 2, 3, 4}; auto r = gal::pga::compute([](auto a) { return a; }, p); std::printf("%g", r[0]); }
'''
