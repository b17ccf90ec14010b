"""C07 C16: rationals and numeric helpers."""
from ..hcheck import Harness
from ..core import Inconclusive


def c07(ctx):
    ctx.rule("a case is a tape-decoded operation (or chain of up to 10) on rationals in lowest terms with magnitudes from "
             "1 to 3e6, clustered around the 1024 threshold, compared with exact 128-bit rational arithmetic; "
             "non-trivial = neither operand is zero; distinct = different tape")
    h = Harness(ctx, "h_rat.cpp", flags=("-O1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"),
                public=("arith", "unary", "compare", "sequence", "integer")).build()
    h.fuzz(ctx.n(500000, 20000000))
    ctx.note("the 32-bit intermediate products named by the property are assumed not to overflow (cases outside are discarded)")


def c16(ctx):
    ctx.rule("a case is a tape-decoded argument of one helper compared with its bit-by-bit / repeated-multiplication "
             "definition; non-trivial = argument outside the fixed points (0, exponent 0 and 1); distinct = different tape")
    h = Harness(ctx, "h_num.cpp", flags=("-O1",), public=()).build()
    if not h.exes:
        raise Inconclusive("none of the numeric helpers is available under its name")
    h.fuzz(ctx.n(600000, 4000000))
    if not ctx.quick:
        crc_exhaustive(ctx)


EXH = r'''
#include "gal/crc.hpp"
#include <cstdio>
#include <cstdlib>
static uint32_t T[256];
int main(int argc, char** argv) {
  for (uint32_t i = 0; i != 256; ++i) { uint32_t c = i; for (int k = 0; k != 8; ++k) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; T[i] = c; }
  uint64_t lo = std::strtoull(argv[1], 0, 10), hi = std::strtoull(argv[2], 0, 10);
  for (uint64_t w = lo; w != hi; ++w) {
    uint32_t c = ~0u;
    for (int k = 0; k != 4; ++k) c = (c >> 8) ^ T[(c ^ uint32_t(w >> (8 * k))) & 255];
    if (gal::detail::crc32(uint32_t(w)) != uint32_t(~c)) { std::printf("BAD %llu\n", (unsigned long long)w); return 1; }
  }
  std::printf("OK\n"); return 0; }
'''


def crc_exhaustive(ctx):
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    from ..hcheck import compile_src
    from ..core import Violation
    exe, err = compile_src(ctx, EXH, "crcx", ("-O2",))
    if not exe:
        ctx.note("exhaustive crc sweep not available")
        return
    n = 64
    step = (1 << 32) // n

    def go(i):
        return subprocess.run([exe, str(i * step), str((i + 1) * step)], stdout=subprocess.PIPE).stdout.decode()
    with ThreadPoolExecutor(8) as ex:
        for out in ex.map(go, range(n)):
            if out.startswith("BAD"):
                w = int(out.split()[1])
                raise Violation({"property": "C16", "kind": "tape", "file": "h_num.cpp", "relation": "crc_word",
                                 "tape": [w, 0], "flags": ["-O1"], "cxx": "g++", "detail": "crc32(%d)" % w, "case": ""},
                                "crc32(%d) differs" % w)
    ctx.evaluations += 1 << 32
    ctx.extra["crc32_exhaustive"] = "all 2^32 words"


CHECKS = {"C07": c07, "C16": c16}
