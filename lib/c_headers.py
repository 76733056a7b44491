"""C31: headers alone, in any order and in many units against spec/Headers.tla."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf
from vf import Violation, Machinery

ASK = {  # question -> (declarations, expression)
    "clz of 40": ("", "static_cast<long>(utils::clz(40u))"),
    "ctz of 40": ("", "static_cast<long>(utils::ctz(40u))"),
    "multiple of 8 from 13": ("", "static_cast<long>(utils::next_multiple_of(8, 13))"),
    "bits of 1000": ("", "static_cast<long>(utils::bits_count(1000))"),
    "abort for no reason": ("", "(utils::abort_if(false, \"%d\", 1), 0)"),
    "filled": ("const unsigned char full[5] = {9, 9, 9, 9, 9};", "utils::memvcmp(full, 9, 5)"),
    "array sum": ("long sum() { long s = 0; const auto a = utils::make_array(3, 4, 5); for (int x : utils::concatenate_arrays(a, a)) s += x; return s; }", "sum()"),
    "numbers to 5": ("", "static_cast<long>(utils::values_in_range_t<0, 5>::size)"),
    "bits table": ("", "static_cast<long>(utils::kNumBitsTable[255])"),
    "detected": ("template <typename T> using it = typename T::here; struct With { using here = int; }; struct Without {};", "utils::is_detected_v<it, With> * 10 + utils::is_detected_v<it, Without>"),
    "held": ("struct Seven { int v = 7; };", "(utils::fast_pimpl<Seven, sizeof(Seven), alignof(Seven)>())->v"),
    "const method": ("", "utils::function_traits::has_const_qualifier_v<void() const> * 10 + utils::function_traits::has_const_qualifier_v<void()>"),
    "method found": ("CREATE_METHOD_CHECKERS(go) CREATE_STATIC_METHOD_CHECKERS(make) CREATE_MEMBER_TYPE_CHECKERS(kind) struct Goes { void go(); static int make(); using kind = int; }; struct Stays {};",
                     "has_invocable_go_v<Goes> * 1000 + has_static_invocable_make_v<Goes> * 100 + has_type_kind_v<Goes> * 10 + (has_invocable_go_v<Stays> || has_static_invocable_make_v<Stays> || has_type_kind_v<Stays>)"),
    "padding": ("struct Loose { char a; int b; }; struct Tight { int a; int b; };", "utils::has_padding_v<Loose> * 10 + utils::has_padding_v<Tight>"),
    "timer calls": ("int called = 0; void done(const utils::timer &) noexcept { ++called; }", "([] { { utils::timer t(done); utils::timer u(static_cast<utils::timer &&>(t)); } const int n = called; called = 0; return n; }())"),
    "types": ("", "static_cast<long>(utils::type_list<char, int, char>::size)"),
    "smallest type": ("", "static_cast<long>(utils::min_sizeof_index_v<utils::type_list<int, char, long>>)"),
    "greatest value": ("", "(utils::value_list<2, 9, -4>::max<int>)"),
    "pairs": ("template <typename L> struct size_of; template <template <typename...> class L, typename... T> struct size_of<L<T...>> { static constexpr long v = sizeof...(T); };",
              "(size_of<utils::cartesian_product_t<utils::type_list<char>, utils::type_list<int, long>>>::v)"),
    "alignment": ("", "static_cast<long>(utils::memory::get_alignment(reinterpret_cast<void *>(24)))"),
    "wiped": ("", "([] { std::byte b[3] = {std::byte{1}, std::byte{2}, std::byte{3}}; utils::memory::secure_zero_memory(b, 3); return long(b[0]) + long(b[1]) + long(b[2]); }())"),
    "moved": ("", "([] { std::byte b[3] = {std::byte{1}, std::byte{2}, std::byte{3}}; utils::memory::memmove(b + 1, b, 2); return long(b[1]) * 10 + long(b[2]); }())"),
    "default resource": ("", "reinterpret_cast<long>(utils::memory::get_default_resource())"),
    "system resource": ("", "reinterpret_cast<long>(utils::memory::system_memory_resource())"),
    "null resource": ("", "reinterpret_cast<long>(utils::memory::null_memory_resource())"),
    "system serves": ("", "([] { void *p = utils::memory::system_memory_resource()->allocate(8); utils::memory::system_memory_resource()->deallocate(p); return p != nullptr; }())"),
    "typed object": ("", "([] { utils::memory::allocator<int> a; int *p = a.new_object<int>(7); const int v = *p; a.delete_object(p); return v; }())"),
    "bumped": ("", "([] { alignas(64) static std::byte m[64]; utils::memory::monotonic_buffer_resource r(m, sizeof(m)); void *p = r.allocate(3, 1); void *q = r.allocate(8, 16); return static_cast<long>(static_cast<std::byte *>(q) - static_cast<std::byte *>(p)); }())"),
    "pool busy": ("", "([] { alignas(64) static std::byte m[64]; utils::memory::simple_resource<4, 16> r(m, sizeof(m)); void *p = r.allocate(1, 1); void *q = r.allocate(20, 1); const long n = static_cast<long>(r.busy_count()); r.deallocate(p); r.deallocate(q); return n; }())"),
}


def unit(n, e):
    qs = sorted(e["got"])
    s = "".join(f"#include <utils/{h}.h>\n" for h in e["inc"])
    s += "namespace { namespace asked {\n" + "".join(ASK[q][0] + "\n" for q in qs if ASK[q][0]) + "} }\n"
    # answers are kept where the optimizer cannot merge units
    return s + f"void unit{n}(long *r);\nvoid unit{n}(long *r)\n{{\n    using namespace asked;\n" + "".join(f"    r[{i}] = {ASK[q][1]};\n" for i, q in enumerate(qs)) + "}\n"


def program(ctx, units, cxx, flags, tag):
    """All the units compiled, linked into one program, and asked."""
    def one(n):
        src = ctx.path(f"{tag}_u{n}.cpp")
        with open(src, "w") as f:
            f.write(unit(n, units[n]))
        try:
            return ctx.build(src, ctx.path(f"{tag}_u{n}.o"), cxx=cxx, flags=(*flags, "-c", "-I" + os.path.join(vf.HARN, "plain")), libs=(), stub=False)
        except Violation as v:
            raise Violation(f"a unit including {', '.join(units[n]['inc'])} does not compile", v.data)
    with ThreadPoolExecutor(vf.CPUS) as ex:
        objs = list(ex.map(one, range(len(units))))
    main = ctx.path(f"{tag}_main.cpp")
    with open(main, "w") as f:
        f.write("#include <cstdio>\n" + "".join(f"void unit{n}(long *);\n" for n in range(len(units))) + "static void (*const all[])(long *) = {" + ", ".join(f"unit{n}" for n in range(len(units))) +
                "};\nint main() { for (int t = 0; t < 2; ++t) for (auto u : all) { long r[64] = {}; u(r); for (long x : r) std::printf(\"%ld \", x); std::puts(\"\"); } }\n")
    exe = ctx.path(f"{tag}.exe")
    r = subprocess.run([cxx, main, *objs, "-o", exe], capture_output=True, text=True)
    if r.returncode:
        raise Violation("units of one program cannot be linked together", {"units": [u["inc"] for u in units][:20], "errors": r.stderr[:4000]})
    rows = ctx.run_code(exe, f"a program of {len(units)} units").splitlines()
    if len(rows) != 2 * len(units):
        raise Machinery("rows missing")
    one_of = {}
    for k, ln in enumerate(rows):
        e = units[k % len(units)]
        ans = list(map(int, ln.split()))
        for i, q in enumerate(sorted(e["got"])):
            if q in e["single"]:
                was = one_of.setdefault(q, (ans[i], e["inc"]))
                if was[0] != ans[i]:
                    raise Violation(f"two units of a program see different objects: {q}", {"units": [was[1], e["inc"]], "compiler": cxx})
            elif ans[i] != e["got"][q]:
                raise Violation(f"a unit answers '{q}' with {ans[i]}, specified {e['got'][q]}", {"includes": e["inc"], "compiler": [cxx, *flags], "source": unit(0, e)})
    ctx.add("traces_validated_against_impl", len(rows))
    ctx.add("executions", len(rows))


def check(ctx):
    names = ["clz", "common", "ctz", "detector", "fast_pimpl", "function_traits", "padding_checker", "timer", "type_list", "value_list", "cartesian_product", "memory/allocator", "memory/memory",
             "memory/monotonic_buffer_resource", "memory/simple_resource", "utils"]
    fn = ctx.path("more.ndjson")
    with open(fn, "w") as f:
        for _ in range(400 if ctx.thorough else 24):
            f.write(json.dumps([ctx.rng.choice(names) for _ in range(ctx.rng.choice([3, 4, 5, 8, 12, 16]))]) + "\n")
        for _ in range(60 if ctx.thorough else 4):
            f.write(json.dumps(ctx.rng.sample(names, len(names))) + "\n")
    r = ctx.model("Headers", "SPECIFICATION Spec\nCONSTANTS Most = 2\nINVARIANTS OrderFree Emit\nPROPERTY Kept\n", env={"MORE": fn})
    want = {json.dumps(json.loads(ln)) for ln in open(fn)}
    units = {json.dumps(e["inc"]): e for e in r.printed("E|")}
    assert set(ASK) >= {q for e in units.values() for q in e["got"]}
    every = [e for k, e in sorted(units.items()) if len(e["inc"]) <= 2 or k in want]
    alone = [e for e in every if len(e["inc"]) == 1]
    ctx.note(f"{len(every)} units")
    program(ctx, every, "g++", ("-O0",), "gcc")
    rest = [e for e in every if len(e["inc"]) > 1]
    program(ctx, alone + (rest if ctx.thorough else ctx.rng.sample(rest, 60)), "clang++", ("-O1",), "clang")
    program(ctx, alone + ctx.rng.sample(rest, 20), "g++", ("-O2", "-DNDEBUG"), "release")
    if ctx.thorough:
        program(ctx, alone + ctx.rng.sample(rest, 60), "g++", ("-O2", "-flto", "-Wodr", "-Werror=odr"), "lto")
    ctx.sample({"includes": every[20]["inc"], "answers": every[20]["got"]})
    ctx.assumptions += ["sysops is a stand-in of the two functions the memory headers use"]


CHECKS = {"C31": check}
