// Executes scripts on in-place holders of tracked types.
#include "pre.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <utils/fast_pimpl.h>
using std::size_t;

static std::string gPr;
static bool gThrow = false;
static const void *gArg[3];
struct Boom {};
struct Arg { int v; };
struct MoveOnly
{
    int v;
    explicit MoveOnly(int x) noexcept : v(x) {}
    MoveOnly(MoveOnly &&o) noexcept : v(o.v) { o.v = -1; }
};
constexpr int kSlots = 3;
alignas(4096) static std::byte gMem[kSlots + 1][1024];   // holder i lives in the middle of gMem[i]
static std::byte *home(int i) { return gMem[i] + 512; }
static const void *gExt;
static int where(const void *p)
{
    for (int i = 1; i <= kSlots; ++i) if (p == home(i)) return i;
    return p == gExt ? 100 : 0;
}
static bool gLog = true;
static void pr(const char *k, const void *to, int kind, const void *from, bool same)
{
    if (!gLog) return;
    gPr += (gPr.empty() ? "" : ",") + std::string("{\"k\":\"") + k + "\",\"to\":" + std::to_string(where(to)) + ",\"kind\":" + std::to_string(kind) +
           ",\"from\":" + std::to_string(from ? where(from) : 0) + ",\"same\":" + (same ? "true" : "false") + "}";
}

// a class with its own idea of where it is and of how it is made
template <typename D> struct Odd
{
    static void *operator new(size_t, void *p) noexcept { pr("hook", p, 0, nullptr, false); return p; }
    static void *operator new(size_t) noexcept { pr("hook", nullptr, 0, nullptr, false); return nullptr; }
    static void operator delete(void *) noexcept {}
    static void operator delete(void *, void *) noexcept {}
    D *operator&() noexcept { return reinterpret_cast<D *>(gMem[0] + 256); }
    const D *operator&() const noexcept { return reinterpret_cast<const D *>(gMem[0] + 256); }
};
struct Even {};
struct Any { template <typename U> Any(const U &) noexcept {} };
template <int V, size_t S, size_t A, bool NX>
struct alignas(A) T : std::conditional_t<V == 5, Odd<T<V, S, A, NX>>, Even>
{
    unsigned char c[S];
    void set(int v) noexcept { std::memset(c, v, S); }
    int get() const noexcept { for (auto x : c) if (x != c[0]) return -7; return c[0]; }
    void made(int kind, bool same) noexcept(NX)
    {
        pr("ctor", this, kind, nullptr, same);
        boom();
        set(kind);
    }
    static void boom() noexcept(NX) { if constexpr (!NX) if (gThrow) throw Boom{}; }
    T() noexcept(NX) { made(0, true); }
    explicit T(Arg &a) noexcept(NX) { made(1, &a == gArg[0]); }
    explicit T(const Arg &a) noexcept(NX) { made(2, &a == gArg[0]); }
    explicit T(Arg &&a) noexcept(NX) { made(3, &a == gArg[0]); }
    explicit T(const Arg &&a) noexcept(NX) { made(4, &a == gArg[0]); }
    T(Arg &&a, Arg &b) noexcept(NX) { made(5, &a == gArg[0] && &b == gArg[1]); }
    T(const Arg &, const Arg &) noexcept(NX) { made(95, true); }
    explicit T(MoveOnly m) noexcept(NX) { made(6, m.v == 42); }
    T(const Arg &a, Arg &&b, int &i) noexcept(NX) { made(9, &a == gArg[0] && &b == gArg[1] && &i == gArg[2]); }
    T(const Arg &, const Arg &, const int &) noexcept(NX) { made(99, true); }
    T(int, int) noexcept(NX) { made(10, true); }
    T(std::initializer_list<int>) noexcept(NX) { made(98, true); }
    T(std::initializer_list<Any>) noexcept(NX) { made(97, true); }   // braces would end up here
    T(const T &o) noexcept(NX) { pr("ctor", this, 7, std::addressof(o), true); boom(); set(o.get()); }
    T(T &o) noexcept(NX) { pr("ctor", this, 17, std::addressof(o), true); boom(); set(o.get()); }
    T(T &&o) noexcept(NX) { pr("ctor", this, 8, std::addressof(o), true); boom(); const int v = o.get(); if (where(std::addressof(o)) != 100) o.set(99); set(v); }
    T(const T &&o) noexcept(NX) { pr("ctor", this, 18, std::addressof(o), true); boom(); set(o.get()); }
    T &operator=(const T &o) noexcept(NX) { pr("assign", this, 7, std::addressof(o), true); boom(); set(o.get()); return *this; }
    T &operator=(T &o) noexcept(NX) { pr("assign", this, 17, std::addressof(o), true); boom(); set(o.get()); return *this; }
    T &operator=(T &&o) noexcept(NX)
    {
        pr("assign", this, 8, std::addressof(o), true);
        boom();
        const int v = o.get();
        if (std::addressof(o) != this && where(std::addressof(o)) != 100) o.set(99);
        set(v);
        return *this;
    }
    T &operator=(const T &&o) noexcept(NX) { pr("assign", this, 18, std::addressof(o), true); boom(); set(o.get()); return *this; }
    ~T() { pr("dtor", this, 0, nullptr, true); }
};

template <typename X> struct Run
{
    using H = utils::fast_pimpl<X, sizeof(X), alignof(X)>;
    static H &at(int i) { return *std::launder(reinterpret_cast<H *>(home(i))); }
    static void make(int i, int kind, int how)
    {
        Arg x{1}, y{2};
        const Arg cx{3};
        int n = 5;
        gArg[0] = &x; gArg[1] = &y; gArg[2] = &n;
        void *m = home(i);
        using F = utils::forwarding_constructor;
        switch (kind)
        {
            case 0: if (how == 1) new (m) H(); else new (m) H(F{}); break;
            case 1: new (m) H(F{}, x); break;
            case 2: gArg[0] = &cx; new (m) H(F{}, cx); break;
            case 3: new (m) H(F{}, std::move(x)); break;
            case 4: gArg[0] = &cx; new (m) H(F{}, std::move(cx)); break;
            case 5: new (m) H(F{}, std::move(x), y); break;
            case 6: new (m) H(F{}, MoveOnly(42)); break;
            case 10: new (m) H(F{}, 3, 4); break;
            default: gArg[0] = &cx; new (m) H(F{}, cx, std::move(y), n); break;
        }
    }
    static void move_or_copy(const std::string &op, int d, int s, int x)
    {
        gLog = false;
        alignas(X) std::byte em[sizeof(X)];
        const bool th = gThrow;
        gThrow = false;
        X *ext = ::new (static_cast<void *>(em)) X();
        gThrow = th;
        ext->set(50);
        gExt = ext;
        gLog = true;
        void *m = home(d);
        try
        {
        if (op == "newfrom")
        {
            if (s == 100) { if (x == 7) new (m) H(static_cast<const X &>(*ext)); else new (m) H(std::move(*ext)); }
            else { if (x == 7) new (m) H(static_cast<const H &>(at(s))); else new (m) H(std::move(at(s))); }
        }
        else if (op == "newfromlv") { if (s == 100) new (m) H(*ext); else new (m) H(at(s)); }
        else if (op == "assign")
        {
            H *r;
            if (s == 100) { if (x == 7) r = &(at(d) = static_cast<const X &>(*ext)); else r = &(at(d) = std::move(*ext)); }
            else { if (x == 7) r = &(at(d) = static_cast<const H &>(at(s))); else r = &(at(d) = std::move(at(s))); }
            if (r != &at(d)) gPr += "{\"k\":\"other\"}";
        }
        else { if (s == 100) at(d) = *ext; else at(d) = at(s); }
        }
        catch (const Boom &) { gLog = false; ext->~X(); gLog = true; gExt = nullptr; throw; }
        gLog = false;
        ext->~X();
        gLog = true;
        gExt = nullptr;
    }
    static std::string traits()
    {
        std::string o;
        auto t = [&](bool h, bool x) { o += (o.empty() ? "" : ",") + std::string("{\"op\":\"noexcept\",\"x\":") + (h ? "1" : "0") + ",\"s\":" + (x ? "1" : "0") + "}"; };
        using F = utils::forwarding_constructor;
        t(std::is_nothrow_default_constructible_v<H>, std::is_nothrow_default_constructible_v<X>);
        t(std::is_nothrow_copy_constructible_v<H>, std::is_nothrow_copy_constructible_v<X>);
        t(std::is_nothrow_move_constructible_v<H>, std::is_nothrow_move_constructible_v<X>);
        t(std::is_nothrow_copy_assignable_v<H>, std::is_nothrow_copy_assignable_v<X>);
        t(std::is_nothrow_move_assignable_v<H>, std::is_nothrow_move_assignable_v<X>);
        t(std::is_nothrow_constructible_v<H, const X &>, std::is_nothrow_copy_constructible_v<X>);
        t(std::is_nothrow_constructible_v<H, X>, std::is_nothrow_move_constructible_v<X>);
        t(std::is_nothrow_assignable_v<H &, const X &>, std::is_nothrow_copy_assignable_v<X>);
        t(std::is_nothrow_assignable_v<H &, X>, std::is_nothrow_move_assignable_v<X>);
        t(std::is_nothrow_constructible_v<H, F>, std::is_nothrow_constructible_v<X>);
        if constexpr (std::is_constructible_v<X, Arg &>)
        {
            t(std::is_nothrow_constructible_v<H, F, Arg &>, std::is_nothrow_constructible_v<X, Arg &>);
            t(std::is_nothrow_constructible_v<H, F, const Arg &>, std::is_nothrow_constructible_v<X, const Arg &>);
            t(std::is_nothrow_constructible_v<H, F, Arg>, std::is_nothrow_constructible_v<X, Arg>);
            t(std::is_nothrow_constructible_v<H, F, Arg, Arg &>, std::is_nothrow_constructible_v<X, Arg, Arg &>);
        }
        return o;
    }
    static std::string run(const std::vector<std::string> &ops)
    {
        std::string out = traits();
        bool on[kSlots + 1] = {};
        std::memset(gMem, 0xD3, sizeof gMem);
        for (auto &ln : ops)
        {
            std::istringstream in(ln);
            std::string op;
            int d, s, x, th, thrown = 0;
            in >> op >> d >> s >> x >> th;
            gPr.clear();
            gThrow = th;
            try
            {
                if (op == "make") { make(d, x, s); on[d] = true; }
                else if (op == "drop") { at(d).~H(); on[d] = false; std::memset(home(d), 0xD3, sizeof(H)); }
                else if (op == "write")
                {
                    if (x == 60) at(d).get().set(x);
                    else if (x == 61) at(d)->set(x);
                    else const_cast<X &>(static_cast<const H &>(at(d)).get()).set(x);
                }
                else
                {
                    move_or_copy(op, d, s, x);
                    if (op[0] == 'n') on[d] = true;
                }
            }
            catch (const Boom &)
            {
                thrown = 1;
                if (!on[d]) std::memset(home(d), 0xD3, sizeof(H));
            }
            gThrow = false;
            bool guard = true;
            for (int i = 1; i <= kSlots; ++i)
                for (size_t k = 0; k < 1024; ++k)
                    if ((k < 512 || k >= 512 + sizeof(H) || !on[i]) && gMem[i][k] != std::byte(0xD3)) guard = false;
            out += ",{\"op\":\"" + op + "\",\"d\":" + std::to_string(d) + ",\"s\":" + std::to_string(s) + ",\"x\":" + std::to_string(x) +
                   ",\"th\":" + std::to_string(th) + ",\"out\":" + std::to_string(thrown) + ",\"guard\":" + (guard ? "true" : "false") + ",\"pr\":[" + gPr + "],\"st\":[";
            for (int i = 1; i <= kSlots; ++i)
            {
                out += i > 1 ? "," : "";
                if (!on[i]) { out += "{}"; continue; }
                H &h = at(i);
                const H &c = h;
                const void *p[4] = {std::addressof(h.get()), std::addressof(c.get()), h.operator->(), c.operator->()};
                bool inside = true, aligned = true;
                for (auto q : p)
                {
                    auto b = static_cast<const std::byte *>(q);
                    inside = inside && b >= home(i) && b + sizeof(X) <= home(i) + sizeof(H);
                    aligned = aligned && reinterpret_cast<uintptr_t>(q) % alignof(X) == 0 && alignof(H) >= alignof(X);
                }
                out += "{\"v\":[" + std::to_string(h.get().get()) + "," + std::to_string(c.get().get()) + "," + std::to_string(h->get()) + "," + std::to_string(c->get()) +
                       "],\"inside\":" + (inside ? "true" : "false") + ",\"aligned\":" + (aligned ? "true" : "false") + "}";
            }
            out += "]}";
        }
        return out;
    }
};
// types whose operations differ in what they may throw
struct N1 { N1() noexcept; N1(const N1 &) noexcept(false); N1(N1 &&) noexcept; N1 &operator=(const N1 &) noexcept; N1 &operator=(N1 &&) noexcept(false); explicit N1(Arg &) noexcept; explicit N1(const Arg &) noexcept(false); explicit N1(Arg &&) noexcept; N1(Arg &&, Arg &) noexcept(false); ~N1() {} int x; };
struct N2 { N2() noexcept(false); N2(const N2 &) noexcept; N2(N2 &&) noexcept(false); N2 &operator=(const N2 &) noexcept(false); N2 &operator=(N2 &&) noexcept; explicit N2(Arg &) noexcept(false); explicit N2(const Arg &) noexcept; explicit N2(Arg &&) noexcept(false); N2(Arg &&, Arg &) noexcept; ~N2() {} int x; };
struct N3 { N3() noexcept(false); N3(const N3 &) noexcept; N3(N3 &&) noexcept; N3 &operator=(const N3 &) noexcept(false); N3 &operator=(N3 &&) noexcept(false); ~N3() {} int x; };
struct N4 { N4() noexcept; N4(const N4 &) noexcept(false); N4(N4 &&) noexcept(false); N4 &operator=(const N4 &) noexcept; N4 &operator=(N4 &&) noexcept; ~N4() {} int x; };

int main(int, char **argv)
{
    std::ifstream in(argv[1]);
    std::vector<std::pair<int, std::vector<std::string>>> all;
    std::string ln;
    while (std::getline(in, ln))
        if (ln[0] == 'S') all.push_back({std::atoi(ln.c_str() + 2), {}});
        else if (!ln.empty()) all.back().second.push_back(ln);
    std::ofstream(argv[2]) << "{\"ev\":[" << Run<N1>::traits() << "," << Run<N2>::traits() << "," << Run<N3>::traits() << "," << Run<N4>::traits() << "]}\n";
    for (auto &s : all)
    {
        const pid_t pid = fork();
        if (!pid)
        {
            std::string o;
            switch (s.first % 6)
            {
                case 0: o = Run<T<0, 24, 8, false>>::run(s.second); break;
                case 1: o = Run<T<1, 1, 1, false>>::run(s.second); break;
                case 2: o = Run<T<2, 64, 64, false>>::run(s.second); break;
                case 3: o = Run<T<3, 3, 1, false>>::run(s.second); break;
                case 5: o = Run<T<5, 16, 16, false>>::run(s.second); break;
                default: o = Run<T<4, 192, 32, false>>::run(s.second); break;
            }
            std::ofstream out(argv[2], std::ios::app);
            out << "{\"ev\":[" << o << "]}\n";
            out.close();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            std::ofstream out(argv[2], std::ios::app);
            out << "{\"ev\":[{\"op\":\"died\"}]}\n";
        }
    }
}
