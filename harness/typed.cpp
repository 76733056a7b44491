// Executes scripts on typed allocators over recording resources; contains no
// oracle beyond recording what happened.
#include "pre.h"
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <utils/memory/memory.h>
#include <utils/memory/allocator.h>
using namespace utils::memory;
using std::size_t;

namespace sysops::memory::ops
{
int posix_memalign(void **, size_t, size_t) noexcept { return 12; }
void free(void *) noexcept {}
}

static std::vector<std::string> gPr;
static void pr(const std::string &s) { gPr.push_back("{" + s + "}"); }
static std::string kv(const char *k, long v) { return std::string("\"") + k + "\":" + std::to_string(v); }

// ------------------------------------------------------------ resources
struct Blk { std::byte *p; size_t n; int id; };
static std::map<const std::byte *, Blk> gBlk;
static int gPlan = 0;           // id of the next block; 0: refuse
static std::string gForm = "lit";
static size_t gBase = 0;        // requested sizes are recorded minus this
alignas(4096) static std::byte gMem[1 << 20];
static size_t gAt = 0;
static bool gGuard = true;

static int block_of(const void *p)
{
    auto b = static_cast<const std::byte *>(p);
    auto it = gBlk.find(b);
    return it == gBlk.end() ? -1 : it->second.id;
}
struct Rec : memory_resource
{
    int id;
    explicit Rec(int i) : memory_resource(&Rec::allocate<Rec>, &Rec::deallocate<Rec>), id(i) {}
    void *allocate_impl(size_t n, size_t al) noexcept
    {
        long off = long(n - gBase);
        std::string f = gForm;
        if (off > 1000000 || off < -1000000) f = "far", off = -1;
        std::byte *p = nullptr;
        int b = 0;
        if (gPlan && n <= 4096 && al && !(al & (al - 1)) && al <= 4096)
        {
            gAt = (gAt + 64 + al - 1) & ~(al - 1);
            if (gAt % (2 * al) == 0) gAt += al;    // no more alignment than asked for
            p = gMem + gAt;
            gAt += n + 64;
            std::memset(p, 0xAB, n);
            b = gPlan;
            gPlan = 1000 + gPlan;
            gBlk[p] = {p, n, b};
        }
        pr("\"k\":\"alloc\"," + kv("r", id) + ",\"f\":\"" + f + "\"," + kv("off", off) + "," + kv("al", al < (1u << 30) ? long(al) : -1) + "," + kv("b", b));
        return p;
    }
    void deallocate_impl(void *p) noexcept
    {
        const int b = block_of(p);
        pr("\"k\":\"free\"," + kv("r", id) + "," + kv("b", b));
        if (b > 0)
        {
            auto &x = gBlk[static_cast<std::byte *>(p)];
            std::memset(x.p, 0xEE, x.n);
            gBlk.erase(static_cast<std::byte *>(p));
        }
    }
    bool is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
static Rec gR1(1), gR2(2);
static Rec *rec(int i) { return i == 1 ? &gR1 : &gR2; }
static bool guard()
{
    // everything outside live blocks keeps its fill
    size_t i = 0;
    const std::byte *p = gMem;
    for (auto &kvp : gBlk)
    {
        const auto &b = kvp.second;
        if (b.p < gMem || b.p >= gMem + sizeof gMem) continue;
        for (; gMem + i < b.p; ++i) if (p[i] != std::byte(0xEE)) return false;
        i = size_t(b.p - gMem) + b.n;
    }
    for (; i < gAt + 64; ++i) if (p[i] != std::byte(0xEE)) return false;
    return true;
}

// -------------------------------------------------------------- objects
struct Arg { int v; };
struct MoveOnly
{
    int v;
    explicit MoveOnly(int x) noexcept : v(x) {}
    MoveOnly(MoveOnly &&o) noexcept : v(o.v) { o.v = -1; pr("\"k\":\"mv\""); }
};
static const void *gArg[3];
// a class with its own idea of where it is and of how it is made
template <typename D> struct Odd
{
    static void *operator new(size_t, void *p) noexcept { pr("\"k\":\"hook\""); return p; }
    static void *operator new(size_t) noexcept { pr("\"k\":\"hook\""); return nullptr; }
    static void operator delete(void *) noexcept { pr("\"k\":\"hook\""); }
    static void operator delete(void *, void *) noexcept {}
    D *operator&() noexcept { return reinterpret_cast<D *>(gMem); }
    const D *operator&() const noexcept { return reinterpret_cast<const D *>(gMem); }
};
struct Even {};
struct Any { template <typename U> Any(const U &) noexcept {} };
struct Poly { virtual ~Poly() {} };  // deleted through this part as often as through the whole
template <int I, size_t S, size_t A>
struct alignas(A) Obj : std::conditional_t<I == 7, Odd<Obj<I, S, A>>, std::conditional_t<I == 6, Poly, Even>>
{
    unsigned char c[I == 6 ? S - sizeof(Poly) : S];
    void made(int kind, bool same) noexcept
    {
        std::memset(c, I, sizeof c);
        pr("\"k\":\"ctor\"," + kv("b", block_of(this)) + "," + kv("T", I) + "," + kv("kind", kind) + ",\"same\":" + (same ? "true" : "false"));
    }
    Obj() noexcept { made(0, true); }
    explicit Obj(Arg &a) noexcept { made(1, &a == gArg[0]); }
    explicit Obj(const Arg &a) noexcept { made(2, &a == gArg[0]); }
    explicit Obj(Arg &&a) noexcept { made(3, &a == gArg[0]); }
    explicit Obj(const Arg &&a) noexcept { made(4, &a == gArg[0]); }
    Obj(Arg &&a, Arg &b) noexcept { made(5, &a == gArg[0] && &b == gArg[1]); }
    Obj(const Arg &a, Arg &b) noexcept { made(95, &a == gArg[0] && &b == gArg[1]); }
    explicit Obj(MoveOnly m) noexcept { made(6, m.v == 42); }
    Obj(std::initializer_list<Any>) noexcept { made(97, true); }
    Obj(const Obj &o) noexcept { made(7, std::addressof(o) == gArg[0]); }
    Obj(Obj &&o) noexcept { made(8, std::addressof(o) == gArg[0]); }
    Obj(const Arg &a, Arg &&b, int &i) noexcept { made(9, &a == gArg[0] && &b == gArg[1] && &i == gArg[2]); }
    Obj(const Arg &a, const Arg &b, const int &i) noexcept { made(99, &a == gArg[0] && &b == gArg[1] && &i == gArg[2]); }
    Obj(int, int) noexcept { made(10, true); }
    Obj(std::initializer_list<int>) noexcept { made(98, true); }
    ~Obj()
    {
        bool ok = true;
        for (auto x : c) ok = ok && x == I;
        pr("\"k\":\"dtor\"," + kv("b", block_of(this)) + "," + kv("T", ok ? I : -I));
    }
};
using T1 = Obj<1, 1, 1>;
using T2 = Obj<2, 2, 2>;
using T3 = Obj<3, 3, 1>;
using T4 = Obj<4, 4, 4>;
using T5 = Obj<5, 8, 8>;
using T6 = Obj<6, 24, 8>;
using T7 = Obj<7, 64, 32>;
using T8 = Obj<8, 256, 128>;
static_assert(sizeof(T8) == 256 && alignof(T8) == 128 && sizeof(T7) == 64 && alignof(T7) == 32 && sizeof(T6) == 24 && sizeof(T3) == 3);

template <typename F> auto with_type(int t, F f)
{
    switch (t)
    {
        case 1: return f(static_cast<T1 *>(nullptr));
        case 2: return f(static_cast<T2 *>(nullptr));
        case 3: return f(static_cast<T3 *>(nullptr));
        case 4: return f(static_cast<T4 *>(nullptr));
        case 5: return f(static_cast<T5 *>(nullptr));
        case 6: return f(static_cast<T6 *>(nullptr));
        case 7: return f(static_cast<T7 *>(nullptr));
        default: return f(static_cast<T8 *>(nullptr));
    }
}
using A1 = allocator<T4>;
using A2 = allocator<T6>;
alignas(64) static std::byte gA[3][64];
static A1 &a1() { return *std::launder(reinterpret_cast<A1 *>(gA[1])); }
static A2 &a2() { return *std::launder(reinterpret_cast<A2 *>(gA[2])); }
template <typename F> auto with_slot(int s, F f) { return s == 1 ? f(a1()) : f(a2()); }

template <typename U, typename Make>
static void *make(int kind, Make mk)
{
    Arg x{1}, y{2};
    const Arg cx{3};
    int i = 5;
    gArg[0] = &x; gArg[1] = &y; gArg[2] = &i;
    alignas(128) std::byte src[sizeof(U)];
    switch (kind)
    {
        case 0: return mk();
        case 1: return mk(x);
        case 2: gArg[0] = &cx; return mk(cx);
        case 3: return mk(std::move(x));
        case 4: gArg[0] = &cx; return mk(std::move(cx));
        case 5: return mk(std::move(x), y);
        case 6: return mk(MoveOnly(42));
        case 7: case 8:
        {
            U *s = reinterpret_cast<U *>(src);
            gArg[0] = s;
            return kind == 7 ? mk(static_cast<const U &>(*s)) : mk(std::move(*s));
        }
        case 10: return mk(3, 4);
        default: gArg[0] = &cx; return mk(cx, std::move(y), i);
    }
}

static size_t base_of(const std::string &f, size_t sz)
{
    if (f == "Q") return std::numeric_limits<size_t>::max() / sz;
    if (f == "p32") return size_t(1) << 32;
    if (f == "p63") return size_t(1) << 63;
    return 0;
}

static std::map<int, void *> gObj, gRaw;
static std::map<int, int> gType;
static std::string gOut;

static void run(const std::vector<std::string> &ops)
{
    new (gA[1]) A1(&gR1);
    new (gA[2]) A2(&gR1);
    std::memset(gMem, 0xEE, sizeof gMem);
    for (auto &ln : ops)
    {
        std::istringstream in(ln);
        std::string op, f;
        int s, T, x, b;
        long d;
        in >> op >> s >> T >> x >> f >> d >> b;
        if (f == "-") f = "lit";
        gPr.clear();
        if (gBlk.empty()) gAt = 0;
        gForm = "lit";
        gBase = 0;
        gPlan = b;
        long rb = 0, rx = x, rd = d;
        if (op == "new")
        {
            void *p = with_slot(s, [&](auto &a) -> void *
            { return with_type(T, [&](auto *t) -> void *
              { using U = std::remove_pointer_t<decltype(t)>;
                return make<U>(x, [&](auto &&...as) -> void * { return a.template new_object<U>(std::forward<decltype(as)>(as)...); }); }); });
            rb = p ? block_of(p) : 0;
            if (rb > 0) gObj[int(rb)] = p, gType[int(rb)] = T;
        }
        else if (op == "construct")
        {
            alignas(128) static std::byte buf[256];
            gBlk[buf] = {buf, 256, 900};
            with_slot(s, [&](auto &a)
            { with_type(T, [&](auto *t)
              { using U = std::remove_pointer_t<decltype(t)>;
                make<U>(x, [&](auto &&...as) -> void * { a.construct(reinterpret_cast<U *>(buf), std::forward<decltype(as)>(as)...); return nullptr; }); return 0; }); return 0; });
            gBlk.erase(buf);
            rb = 900;
        }
        else if (op == "del")
        {
            if (!gObj.count(b)) { gOut += "{\"op\":\"lost\",\"guard\":true},"; return; }
            void *p = gObj[b];
            with_slot(s, [&](auto &a) { with_type(gType[b], [&](auto *t)
              { auto *o = static_cast<decltype(t)>(p);
                if constexpr (std::is_same_v<decltype(t), T6 *>)
                    if (b % 2) { a.delete_object(static_cast<Poly *>(o)); return 0; }
                a.delete_object(o);
                return 0; }); return 0; });
            gObj.erase(b);
            rb = b;
        }
        else if (op == "delnull")
            with_slot(s, [&](auto &a) { with_type(T, [&](auto *t) { a.delete_object(t); return 0; }); return 0; });
        else if (op == "array")
        {
            const size_t sz = T == 0 ? (s == 1 ? 4 : 24) : with_type(T, [](auto *t) { return sizeof(*t); });
            const size_t n = base_of(f, sz) + size_t(d);
            gForm = f;
            gBase = base_of(f, sz) * sz;
            void *p = T == 0 ? with_slot(s, [&](auto &a) -> void * { return a.allocate(n); })
                             : with_slot(s, [&](auto &a) -> void *
                               { return with_type(T, [&](auto *t) -> void *
                                 { using U = std::remove_pointer_t<decltype(t)>;
                                   return n == 1 ? a.template allocate_object<U>() : a.template allocate_object<U>(n); }); });
            rb = p ? block_of(p) : 0;
            if (rb > 0) gRaw[int(rb)] = p;
        }
        else if (op == "bytes")
        {
            void *p = with_slot(s, [&](auto &a) -> void * { return T == 0 ? a.allocate_bytes(size_t(d)) : a.allocate_bytes(size_t(d), size_t(T)); });
            rb = p ? block_of(p) : 0;
            if (rb > 0) gRaw[int(rb)] = p;
        }
        else if (op == "freeraw")
        {
            if (!gRaw.count(b)) { gOut += "{\"op\":\"lost\",\"guard\":true},"; return; }
            void *p = gRaw[b];
            if (x == 0) with_slot(s, [&](auto &a) { a.deallocate_bytes(p); return 0; });
            else if (x == 1)
                s == 1 ? a1().deallocate(static_cast<T4 *>(p)) : a2().deallocate(static_cast<T6 *>(p));
            else with_slot(s, [&](auto &a) { a.deallocate_object(static_cast<T5 *>(p)); return 0; });
            gRaw.erase(b);
            rb = b;
        }
        else if (op == "plain")
        {
            gPlan = d ? 0 : 500;
            with_slot(s, [&](auto &a)
            {
                int *p = x ? a.template new_object<int>(x) : a.template new_object<int>();
                rb = p ? 1 : 0;
                rd = p ? *p : 0;
                if (p) a.delete_object(p);
                else pr("\"k\":\"none\"");
                return 0;
            });
        }
        else if (op == "share")
        {
            if (b == s)
            {
                alignas(64) std::byte t[64];
                if (s == 1) { new (t) A1(x == 2 ? std::move(a1()) : a1()); new (gA[1]) A1(*reinterpret_cast<A1 *>(t)); }
                else { new (t) A2(x == 2 ? std::move(a2()) : a2()); new (gA[2]) A2(*reinterpret_cast<A2 *>(t)); }
            }
            else if (x == 0) s == 1 ? (void)new (gA[2]) A2(a1()) : (void)new (gA[1]) A1(a2());
            else if (x == 1) s == 1 ? (void)new (gA[2]) A2(allocator<T8>(a1())) : (void)new (gA[1]) A1(allocator<char>(a2()));
            else { A1 c = a1(); A2 c2 = a2(); s == 1 ? (void)new (gA[2]) A2(c) : (void)new (gA[1]) A1(c2); }
            rb = b;
        }
        else if (op == "rebind")
            s == 1 ? (void)new (gA[1]) A1(rec(x)) : (void)new (gA[2]) A2(rec(x));
        else if (op == "equal")
        {
            auto eq = [&](auto &p, auto &q) { rx = p == q; rd = p != q; };
            if (s == 1 && b == 1) { A1 c = a1(); eq(a1(), c); }
            else if (s == 1) eq(a1(), a2());
            else if (b == 1) eq(a2(), a1());
            else { const A2 c = a2(); eq(a2(), c); }
            rb = b;
        }
        std::ostringstream o;
        o << "{\"op\":\"" << op << "\",\"s\":" << s << ",\"T\":" << T << ",\"x\":" << rx << ",\"f\":\"" << f
          << "\",\"d\":" << rd << ",\"b\":" << rb << ",\"guard\":" << (guard() ? "true" : "false") << ",\"pr\":[";
        for (size_t i = 0; i < gPr.size(); ++i) o << (i ? "," : "") << gPr[i];
        o << "]},";
        gOut += o.str();
    }
}

int main(int, char **argv)
{
    std::ifstream in(argv[1]);
    std::vector<std::vector<std::string>> all;
    std::string ln;
    while (std::getline(in, ln))
        if (ln == "S") all.emplace_back();
        else if (!ln.empty()) all.back().push_back(ln);
    for (auto &s : all)
    {
        const pid_t pid = fork();
        if (!pid)
        {
            run(s);
            std::ofstream out(argv[2], std::ios::app);
            if (!gOut.empty()) gOut.pop_back();
            out << "{\"ev\":[" << gOut << "]}\n";
            out.close();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            std::ofstream out(argv[2], std::ios::app);
            out << "{\"ev\":[{\"op\":\"died\",\"guard\":true}]}\n";
        }
    }
}
