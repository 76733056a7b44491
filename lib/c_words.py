"""C21, C22: bit scans, counts and alignment arithmetic against
spec/Words.tla."""
import json
from concurrent.futures import ThreadPoolExecutor
import vf, num
from num import word
from vf import Machinery

UNSIGNED = {8: ["unsigned char"], 16: ["unsigned short", "char16_t"], 32: ["unsigned", "char32_t"], 64: ["unsigned long", "unsigned long long"]}
SIGNED = {8: ["signed char", "char"], 16: ["short"], 32: ["int", "wchar_t"], 64: ["long", "long long"]}


def ask(ctx, queries, randoms=400):
    """Answers of spec/WordsMC.tla: {(width, group): rows}."""
    fn = ctx.path("words.ndjson")
    with open(fn, "w") as f:
        for _ in range(randoms):
            n = ctx.rng.getrandbits(64) & (ctx.rng.getrandbits(64) if ctx.rng.random() < 0.3 else -1) >> ctx.rng.choice([0, 0, 0, 8, 20, 40])
            f.write(json.dumps({"l": [(n >> (16 * i)) & 0xffff for i in range(4)]}) + "\n")
    thm = [("thm", "thm")]

    def one(q):
        w, o = q
        if w == "thm":
            return q, ctx.model("WordsThm", "SPECIFICATION Spec\n", workers=1)
        return q, ctx.model("WordsMC", f'SPECIFICATION MCSpec\nCONSTANTS W = {w}\n Ops = "{o}"\nACTION_CONSTRAINT Emit\n', env={"WORDS": fn}, workers=4, heap="3g", timeout=1200)

    with ThreadPoolExecutor(3) as ex:
        res = dict(ex.map(one, thm + queries))
    out = {}
    for q in queries:
        seen = {}
        for e in res[q].printed("E|"):
            for row in e["r"]:
                seen[word(row[0])] = row
        out[q] = [seen[k] for k in sorted(seen)]
        if not out[q]:
            raise Machinery(f"no rows for {q}")
    return out


def c21(ctx):
    q = [(w, "scan") for w in (8, 16, 32, 64)]
    ans = ask(ctx, q, 20000 if ctx.thorough else 2000)
    ct = 100000 if ctx.thorough else 4000
    groups = []
    for w in (8, 16, 32, 64):
        rows = ans[(w, "scan")]
        for T in UNSIGNED[w]:
            nz = [((word(r[0]),), (r[1][0], r[1][1])) for r in rows if r[1]]
            groups.append(dict(name=f"clz, ctz of {T}", rows=nz, ct=ct, code=f"auto v = static_cast<{T}>(x.a[0]); const auto c = v; return {{{{U64(utils::clz(v)), U64(utils::ctz(c))}}}};"))
            cnt = [((word(r[0]),), (r[2], r[2], r[3], word(r[4]))) for r in rows]
            groups.append(dict(name=f"bit counts of {T}", rows=cnt, ct=ct,
                               code=f"auto v = static_cast<{T}>(x.a[0]); const auto c = v; return {{{{U64(utils::nbits_occupied(v)), U64(utils::nbits_occupied(static_cast<{T}>(c))), U64(utils::is_power_of_2(v)), U64(utils::greatest_divisor_that_is_power_of_2(c))}}}};"))
        nz = [((word(r[0]),), (r[1][0], r[1][1])) for r in rows if r[1]]
        sfx = {32: ["ui"], 64: ["ul", "ull"]}.get(w, [])
        for s in sfx:
            groups.append(dict(name=f"clz_{s}, ctz_{s}", rows=nz, ct=ct, code=f"return {{{{U64(utils::clz_{s}(x.a[0])), U64(utils::ctz_{s}(x.a[0]))}}}};"))
        groups.append(dict(name=f"bits_count of {w} bits", rows=[((word(r[0]),), (r[2],)) for r in rows], ct=ct, code="return {{U64(utils::bits_count(x.a[0]))}};"))
        if w == 8:
            groups.append(dict(name="table of bit counts", rows=[((word(r[0]),), (r[5], 256)) for r in rows], ct=256, code="return {{U64(utils::kNumBitsTable[x.a[0]]), U64(utils::kNumBitsTable.size())}};"))
    num.run(ctx, "scan", "#include <utils/clz.h>\n#include <utils/ctz.h>", groups)
    ctx.note(f"{sum(len(g['rows']) for g in groups)} words asked of {len(groups)} functions")
    ctx.sample({"word": ans[(64, 'scan')][77]})


def c22(ctx):
    q = [(w, "round") for w in (8, 16, 32, 64)] + [(64, "skip"), (64, "block"), (8, "skip"), (8, "block")]
    ans = ask(ctx, q, 4000 if ctx.thorough else 300)
    ct = 100000 if ctx.thorough else 3000
    groups = []
    # rounding, alignment given at run time
    rows = [((1 << k, word(r[0])), (word(v),)) for w in (8, 64) for r in ans[(w, "round")] for k, v in enumerate(r[1]) if v != []]
    groups.append(dict(name="next_multiple_of", rows=rows, ct=ct, code="return {{U64(utils::next_multiple_of(x.a[0], x.a[1]))}};"))
    # alignment a template argument
    for w in (8, 16, 32, 64):
        for T, col, lim in [(t, 1, w) for t in UNSIGNED[w]] + [(t, 2, w - 1) for t in SIGNED[w]]:
            for k in range(0, lim):
                if w > 8 and k % 5 != ctx.seed % 5 and k not in (0, 3, lim - 1) and not ctx.thorough:
                    continue
                lit = f"{1 << k}ull" if k > 31 else f"{1 << k}u" if k % 2 or k > 30 else f"{1 << k}"
                rows = [((word(r[0]),), (word(r[col][k]),)) for r in ans[(w, "round")] if r[col][k] != []]
                groups.append(dict(name=f"next_multiple_of<{lit}, {T}>", rows=rows, ct=256, only=("g++", "clang++")[len(groups) % 2],
                                   code=f"return {{{{U64(bits(utils::next_multiple_of<{lit}>(static_cast<{T}>(x.a[0]))))}}}};"))
    rows = [((word(r[0]), 1 << k), (word(v), word(v) == 0)) for w in (8, 64) for r in ans[(w, "skip")] for k, v in enumerate(r[1])]
    groups.append(dict(name="skip_to_align, is_aligned", rows=rows, code="auto p = reinterpret_cast<const void *>(x.a[0]); return {{U64(utils::skip_to_align(p, x.a[1])), U64(utils::is_aligned(p, x.a[1]))}};"))
    types = {0: ["char", "Al<1>"], 1: ["short", "Al<2>"], 2: ["int", "Al<4>"], 3: ["double", "Al<8>", "void *"], 4: ["long double", "Al<16>"], 5: ["Al<32>"], 6: ["Al<64>"], 9: ["Al<512>"], 12: ["Al<4096>"]}
    for k, ts in types.items():
        for T in ts:
            rows = [((word(r[0]),), (word(r[1][k]), word(r[1][k]) == 0)) for w in (8, 64) for r in ans[(w, "skip")] if k < len(r[1])]
            groups.append(dict(name=f"skip_to_align<{T}>, is_aligned<{T}>", rows=rows, code=f"auto p = reinterpret_cast<const void *>(x.a[0]); return {{{{U64(utils::skip_to_align<{T}>(p)), U64(utils::is_aligned<{T}>(p))}}}};"))
    rows = [((word(r[0]),), (1 << r[2],)) for w in (8, 64) for r in ans[(w, "skip")] if r[2] >= 0]
    groups.append(dict(name="get_alignment", rows=rows, code="return {{U64(utils::memory::get_alignment(reinterpret_cast<const void *>(x.a[0])))}};"))
    rows = [((1 << k, word(r[0])), (1 << v,)) for w in (8, 64) for r in ans[(w, "block")] for k, v in enumerate(r[1]) if 0 <= v < 64]
    groups.append(dict(name="max_alignment_inside_block", rows=rows, ct=ct, code="return {{U64(utils::max_alignment_inside_block(x.a[0], x.a[1]))}};"))
    num.run(ctx, "align", "#include <utils/common.h>\n#include <utils/memory/memory.h>\nnamespace sysops::memory::ops { int posix_memalign(void **, std::size_t, std::size_t) noexcept { return 12; } void free(void *) noexcept {} }\ntemplate <std::size_t N> struct alignas(N) Al { char c; };", groups)
    ctx.note(f"{sum(len(g['rows']) for g in groups)} questions asked of {len(groups)} functions")
    ctx.sample({"block": ans[(8, 'block')][19]})


CHECKS = {"C21": c21, "C22": c22}
