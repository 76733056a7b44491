"""Cases decided by the compiler: rows of numbers computed in constant
expressions (or by short run-time code) and compared with the rows TLC
computed from the specification."""
import os
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, Machinery


def run_cases(ctx, tag, prelude, cases, compilers=("g++", "clang++"), chunks=None, std="c++17", flags=(), split=None):
    """cases: list of dicts
         code   C++ initializer list of a constexpr long row (after its length)
         ptr    instead: expression of type const long* to {length, values...}
         decl   optional declarations placed before
         want   expected list of integers
         what   description for reports
       compilers: g++, clang++; with split, case i goes to compiler i % 2 only.
    """
    os.makedirs(ctx.path(tag), exist_ok=True)
    jobs = []
    for ci, cxx in enumerate(compilers):
        mine = [k for k in range(len(cases)) if not split or k % len(compilers) == ci]
        n = chunks or max(1, min(vf.CPUS // len(compilers), (len(mine) + 19) // 20))
        for c in range(n):
            part = mine[c::n]
            if part:
                jobs.append((cxx, c, part))

    def one(job):
        cxx, c, part = job
        src = ctx.path(tag, f"{cxx[0]}{c}.cpp")
        with open(src, "w") as f:
            f.write('#include "ct.h"\n' + prelude + "\n")
            for k in part:
                cs = cases[k]
                if "decl" in cs:
                    f.write(cs["decl"] + "\n")
                if "ptr" not in cs:
                    f.write(f"static {cs.get('spec', 'constexpr')} long r{k}[] = {{{len(cs['want']) if not cs.get('len') else cs['len']}{', ' if cs['code'] else ''}{cs['code']}}}; // {cs['what']}\n")
            f.write("static const Row rows[] = {" + ",".join(f"{{{k},{cases[k].get('ptr') or f'r{k}'}}}" for k in part) + "};\n")
            f.write("int main() { print_rows(rows, sizeof rows / sizeof *rows); }\n")
        exe = src[:-4]
        ctx.build(src=src, out=exe, cxx=cxx, std=std, flags=("-O0", "-ftemplate-depth=2000", "-fconstexpr-depth=2000", *(["-fbracket-depth=4000"] if "clang" in cxx else []), *flags), stub=True)
        out = ctx.run_code(exe, tag).splitlines()
        if len(out) != len(part):
            raise Machinery("rows lost")
        bad = []
        for ln in out:
            v = [int(x) for x in ln.split()]
            k, got = v[0], v[1:]
            if got != cases[k]["want"]:
                bad.append((k, got))
        os.remove(exe)
        return cxx, len(out), bad

    with ThreadPoolExecutor(vf.CPUS) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        res = [f.result() for f in futs]
    for cxx, n, bad in res:
        ctx.add("traces_validated_against_impl", n)
        if bad:
            k, got = bad[0]
            want = cases[k]["want"]
            at = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
            raise Violation(f"{tag}: the specification and the code disagree ({cxx}): {cases[k]['what']}",
                            {"case": cases[k]["what"], "position": at, "specified": want, "found": got, "labels": cases[k].get("labels"),
                             "code": cases[k].get("ptr") or cases[k]["code"], "disagreeing_cases": sum(len(b) for _, _, b in res)})
