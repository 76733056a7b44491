// Byte operations at run time (from a script) and at compile time (from a
// generated table); prints every operation with the memory after it.
#include "pre.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include <utils/memory/memory.h>
using std::size_t;
namespace sysops::memory::ops
{
int posix_memalign(void **, size_t, size_t) noexcept { return 12; }
void free(void *) noexcept {}
}
namespace um = utils::memory;

template <int K> struct Case { int f, d, s, n; unsigned char m[K]; };
template <int K> struct Out { int r; unsigned char m[K]; };
static const char *kNames[] = {"move", "copy", "zero", "szero", "szeronull"};

template <typename To, typename From, int K>
constexpr void ct_copy(const Case<K> &c, Out<K> &o)
{
    To t[K]{};
    From f[K]{};
    for (int i = 0; i < K; ++i) t[i] = static_cast<To>(c.m[i]), f[i] = static_cast<From>(c.m[i]);
    um::memcpy(t + c.d, f + c.s, size_t(c.n));
    for (int i = 0; i < K; ++i) o.m[i] = static_cast<unsigned char>(t[i]);
}
template <int K>
constexpr Out<K> ct(const Case<K> &c, int variant)
{
    Out<K> o{};
    std::byte b[K]{}, other[K]{};
    for (int i = 0; i < K; ++i) other[i] = b[i] = std::byte(c.m[i]);
    // from the same array, or from another one with the same content
    if (c.f == 0) o.r = um::memmove(b + c.d, (variant % 2 && c.n > 0 ? other : b) + c.s, size_t(c.n)) == b + c.d ? 0 : 1;
    else if (c.f == 1)
    {
        if (variant % 4 == 1) { ct_copy<char, char>(c, o); return o; }
        if (variant % 4 == 2) { ct_copy<unsigned char, std::byte>(c, o); return o; }
        if (variant % 4 == 3) { ct_copy<std::byte, unsigned char>(c, o); return o; }
        um::memcpy(b + c.d, static_cast<const std::byte *>(b + c.s), size_t(c.n));
    }
    else if (c.f == 2) um::secure_zero_memory(b + c.d, size_t(c.n));
    else if (c.f == 3) o.r = um::secure_zero_memory_safe(b + c.d, size_t(c.n));
    else o.r = um::secure_zero_memory_safe(nullptr, size_t(c.n));
    for (int i = 0; i < K; ++i) o.m[i] = static_cast<unsigned char>(b[i]);
    return o;
}
// every small case in both ways, the larger ones in one
constexpr Case<9> kSmall[] = {
#include "ct_cases.inc"
};
constexpr Case<96> kBig[] = {
#include "ct_big.inc"
};
template <int K, size_t N> struct Table { Out<K> o[N]; };
template <int K, size_t N> constexpr Table<K, N> evaluate(const Case<K> (&c)[N], int way)
{
    Table<K, N> t{};
    for (size_t i = 0; i < N; ++i) t.o[i] = ct(c[i], int(i / 2) * 2 + int(i + size_t(way)) % 2);
    return t;
}
constexpr auto kSmall0 = evaluate(kSmall, 0), kSmall1 = evaluate(kSmall, 1);
constexpr auto kBig0 = evaluate(kBig, 0), kBig1 = evaluate(kBig, 1);

// cells of kUnit equal bytes each, by the compiler
template <int kUnit>
constexpr Out<3> ct_scaled(const Case<3> &c)
{
    Out<3> o{};
    std::byte b[3 * kUnit]{};
    for (int i = 0; i < 3 * kUnit; ++i) b[i] = std::byte(c.m[i / kUnit]);
    if (c.f == 0) o.r = um::memmove(b + c.d * kUnit, b + c.s * kUnit, size_t(c.n) * kUnit) == b + c.d * kUnit ? 0 : 1;
    else if (c.f == 1) um::memcpy(b + c.d * kUnit, static_cast<const std::byte *>(b + c.s * kUnit), size_t(c.n) * kUnit);
    else if (c.f == 2) um::secure_zero_memory(b + c.d * kUnit, size_t(c.n) * kUnit);
    else o.r = um::secure_zero_memory_safe(b + c.d * kUnit, size_t(c.n) * kUnit);
    for (int i = 0; i < 3; ++i) o.m[i] = static_cast<unsigned char>(b[i * kUnit]);
    for (int i = 0; i < 3 * kUnit; ++i)
        if (b[i] != b[i / kUnit * kUnit]) o.r = 77;
    return o;
}
constexpr Case<3> kScaled[] = {{0, 1, 0, 2, {3, 4, 5}}, {0, 0, 1, 2, {3, 4, 5}}, {1, 0, 2, 1, {3, 4, 5}}, {2, 0, 0, 2, {3, 4, 5}}, {3, 1, 0, 2, {3, 4, 5}}};
template <int kUnit> constexpr Table<3, std::size(kScaled)> evaluate_scaled()
{
    Table<3, std::size(kScaled)> t{};
    for (size_t i = 0; i < std::size(kScaled); ++i) t.o[i] = ct_scaled<kUnit>(kScaled[i]);
    return t;
}
constexpr auto kScaled0 = evaluate_scaled<300>(), kScaled1 = evaluate_scaled<33000>();

// Cells of gUnit equal bytes each.  Of a large cell only the bytes next to
// its ends have memory of their own, all others share a few pages.
static size_t gUnit = 1;
static unsigned char *big_memory(size_t cells)
{
    static unsigned char *old = nullptr;
    static size_t len = 0;
    if (old) munmap(old, len);
    const size_t page = 4096, share = size_t(2) << 20;
    len = cells * gUnit / share * share + 3 * share;
    old = static_cast<unsigned char *>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (old == MAP_FAILED) _exit(4);
    unsigned char *m = old + page + 1;
    if (gUnit < 2 * share) return m;
    const int fd = memfd_create("bytes", 0);
    if (fd < 0 || ftruncate(fd, off_t(share))) _exit(4);
    for (size_t i = 0; i + share <= len; i += share)
        if (mmap(old + i, share, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(4);
    for (size_t i = 0; i <= cells; ++i)
    {
        auto at = reinterpret_cast<size_t>(m + i * gUnit) / page * page - page;
        if (mmap(reinterpret_cast<void *>(at), 3 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(4);
    }
    close(fd);
    return m;
}
template <typename F> static void cell_bytes(unsigned char *c, F &&f)
{
    if (gUnit < (size_t(4) << 20))
        for (size_t i = 0; i < gUnit; ++i) f(c[i]);
    else
        for (size_t i = 0; i < 2000; ++i) f(c[i]), f(c[gUnit - 1 - i]);
}

static void rt_copy(unsigned char *m, int variant, size_t d, size_t s, size_t n)
{
    auto *b = reinterpret_cast<std::byte *>(m);
    auto *c = reinterpret_cast<char *>(m);
    const size_t z = n;
    switch (variant % 7)
    {
        case 0: um::memcpy(b + d, static_cast<const std::byte *>(b + s), z); break;
        case 1: um::memcpy(c + d, static_cast<const char *>(c + s), z); break;
        case 2: um::memcpy(m + d, static_cast<const char *>(c + s), z); break;
        case 3: um::memcpy(static_cast<void *>(m + d), static_cast<const void *>(m + s), z); break;
        case 4: um::memcpy(static_cast<void *>(m + d), static_cast<const std::byte *>(b + s), z); break;
        case 5: um::memcpy(b + d, static_cast<const void *>(b + s), z); break;
        default: um::memcpy(b + d, static_cast<const unsigned char *>(m + s), z); break;
    }
}

int main(int, char **argv)
{
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string ln, sep;
    alignas(64) static unsigned char arena[1 << 16];
    int count = 0, size = 0, off = 0;
    unsigned char *m = nullptr;
    auto dump = [&]
    {
        std::string s;
        for (int i = 0; i < size; ++i)
        {
            unsigned char *c = m + size_t(i) * gUnit;
            bool same = true;
            cell_bytes(c, [&](unsigned char x) { same = same && x == *c; });
            s += (i ? "," : "") + std::to_string(same ? int(*c) : -2);
        }
        for (int i = 1; i <= 64; ++i)
            if (m[-i] != 0xC7 || m[size_t(size) * gUnit + size_t(i) - 1] != 0xC7) { s += ",-1"; break; }   // outside touched
        return s;
    };
    bool first = true;
    auto ev = [&](const std::string &f, int d, int s, int n, int r, const std::string &mem)
    {
        out << (first ? "" : ",") << "{\"f\":\"" << f << "\",\"d\":" << d << ",\"s\":" << s << ",\"n\":" << n
            << ",\"r\":" << r << ",\"m\":[" << mem << "]}";
        first = false;
    };
    while (std::getline(in, ln))
    {
        std::istringstream is(ln);
        std::string f;
        is >> f;
        if (f == "T") { out << (count++ ? "]}\n" : "") << "{\"ev\":["; first = true; continue; }
        if (f == "unit") { is >> gUnit; continue; }
        if (f == "load")
        {
            is >> size;
            if (gUnit > 1)
            {
                m = big_memory(size_t(size));
                std::memset(m - 64, 0xC7, 64);
                std::memset(m + size_t(size) * gUnit, 0xC7, 64);
            }
            else
            {
                off = 64 + (count + size * 3 + off) % 16;
                m = arena + off;
                std::memset(arena, 0xC7, sizeof arena);
            }
            for (int i = 0; i < size; ++i)
            {
                int v;
                is >> v;
                cell_bytes(m + size_t(i) * gUnit, [&](unsigned char &x) { x = static_cast<unsigned char>(v); });
            }
            ev("load", 0, 0, 0, 0, dump());
            continue;
        }
        int d, s, n, r = 0;
        is >> d >> s >> n;
        auto *b = reinterpret_cast<std::byte *>(m);
        static int variant = 0;
        ++variant;
        const size_t D = size_t(d) * gUnit, S = size_t(s) * gUnit, Z = size_t(n) * gUnit;
        if (f == "move") r = um::memmove(b + D, b + S, Z) == b + D ? 0 : 1;
        else if (f == "copy") rt_copy(m, variant, D, S, Z);
        else if (f == "zero") um::secure_zero_memory(b + D, Z);
        else if (f == "szero") r = um::secure_zero_memory_safe(b + D, Z);
        else r = um::secure_zero_memory_safe(nullptr, Z);
        ev(f, d, s, n, r, dump());
    }
    if (count) out << "]}\n";
    // the compiler's results
    auto report = [&](auto &cases, auto &table)
    {
        out << "{\"ev\":[";
        first = true;
        for (size_t i = 0; i < std::size(cases); ++i)
        {
            auto &c = cases[i];
            std::string a, b;
            for (size_t k = 0; k < std::size(c.m); ++k) a += (k ? "," : "") + std::to_string(int(c.m[k])), b += (k ? "," : "") + std::to_string(int(table.o[i].m[k]));
            ev("load", 0, 0, 0, 0, a);
            ev(kNames[c.f], c.d, c.s, c.n, table.o[i].r, b);
        }
        out << "]}\n";
    };
    report(kSmall, kSmall0);
    report(kSmall, kSmall1);
    report(kBig, kBig0);
    report(kBig, kBig1);
    report(kScaled, kScaled0);
    report(kScaled, kScaled1);
}
