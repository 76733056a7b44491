// Executes scripts on real timers over a controlled clock.
#include "pre.h"
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

static long long gNow = 0;   // nanoseconds

// the program's steady clock is ours
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(gNow)); }
} } }

#include <utils/timer.h>

struct FakeClock
{
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<FakeClock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(duration(gNow)); }
};

static std::string pair_of(long long ns)
{
    long long s = ns / 1000000000, r = ns % 1000000000;
    if (r < 0) r += 1000000000, --s;
    if (s > 2000000000 || s < -2000000000) s = -2000000000;
    return "[" + std::to_string(s) + "," + std::to_string(r) + "]";
}

template <typename T> struct Run
{
    alignas(64) static inline std::byte mem[8][256];
    static inline bool on[8];
    static inline std::string calls;
    static T &at(int i) { return *std::launder(reinterpret_cast<T *>(mem[i])); }
    static void called(int id, const T &t)
    {
        int slot = 0;
        for (int i = 1; i < 8; ++i) if (static_cast<const void *>(&t) == mem[i]) slot = i;
        calls += (calls.empty() ? "" : ",") + std::string("{\"id\":") + std::to_string(id) + ",\"at\":" + std::to_string(slot) +
                 ",\"start\":" + pair_of(std::chrono::duration_cast<std::chrono::nanoseconds>(t.start_tp().time_since_epoch()).count()) +
                 ",\"leaked\":" + pair_of(std::chrono::duration_cast<std::chrono::nanoseconds>(t.leaked()).count()) + "}";
    }
    template <int I> static void fun(const T &t) noexcept { called(I, t); }
    template <int I> static void loud(const T &t) { called(I, t); }
    struct Small { int id; void operator()(const T &t) noexcept { called(id, t); } };
    struct ConstCall { int id; int chk; void operator()(const T &t) const noexcept { called(chk == id * 7 + 1 ? id : -1, t); } };
    struct Byte1 { unsigned char id; void operator()(const T &t) noexcept { called(id, t); } };
    struct Counting { int id; int n; void operator()(const T &t) noexcept { called(n++ == 0 ? id : -2, t); } };
    struct Odd   // has its own ideas of its address and of where it is made
    {
        int id;
        void operator()(const T &t) noexcept { called(id, t); }
        Odd *operator&() const noexcept { return nullptr; }
        static void *operator new(std::size_t, void *) noexcept { static std::byte away[64]; return away; }
    };
    // as large as the timer has room for
    static constexpr std::size_t kRoom = T::kMaxCallbackSize;
    struct Full
    {
        unsigned char fill[kRoom];
        explicit Full(int id) { for (std::size_t i = 0; i < kRoom; ++i) fill[i] = static_cast<unsigned char>(id + 11 * i); }
        void operator()(const T &t) noexcept
        {
            const int id = fill[0];
            bool ok = true;
            for (std::size_t i = 0; i < kRoom; ++i) ok = ok && fill[i] == static_cast<unsigned char>(id + 11 * i);
            called(ok ? id : -3, t);
        }
    };
    template <int I> struct Stateless { void operator()(const T &t) const noexcept { called(I, t); } };
    static inline int ids[64];

    template <int I> static void build(int i, int kind)
    {
        void *m = mem[i];
        switch (kind)
        {
            case 1: new (m) T(fun<I>); break;
            case 2: { auto p = &fun<I>; new (m) T(p); break; }
            case 3: { auto l = [id = I](const T &t) noexcept { called(id, t); }; new (m) T(std::move(l)); break; }
            case 4: { ids[I] = I; int *q = &ids[I]; auto l = [q](const T &t) noexcept { called(*q, t); }; new (m) T(l); break; }
            case 5: { const ConstCall c{I, I * 7 + 1}; new (m) T(c); break; }
            case 6: new (m) T(Small{I}); break;
            case 7: { Stateless<I> s; new (m) T(s); break; }
            case 8: new (m) T(&loud<I>); break;
            case 9: new (m) T(Byte1{I}); break;
            case 12: { Full f{I}; new (m) T(f); break; }
            case 11: { Odd o{I}; new (m) T(o); break; }
            default: { Counting c{I, 0}; new (m) T(c); break; }
        }
    }
    static void build(int i, int kind, int id)
    {
        switch (id)
        {
            case 1: build<1>(i, kind); break;
            case 2: build<2>(i, kind); break;
            case 3: build<3>(i, kind); break;
            case 4: build<4>(i, kind); break;
            case 5: build<5>(i, kind); break;
            case 6: build<6>(i, kind); break;
            case 7: build<7>(i, kind); break;
            default: build<8>(i, kind); break;
        }
    }
    static std::string run(const std::vector<std::string> &ops, int slots)
    {
        std::string out;
        for (auto &x : on) x = false;
        std::memset(mem, 0xB7, sizeof mem);
        gNow = 0;
        for (auto &ln : ops)
        {
            std::istringstream in(ln);
            std::string op;
            int d, s, x, y;
            long long t;
            in >> op >> d >> s >> x >> y >> t;
            calls.clear();
            std::string rd = "{}";
            if (op == "new") { on[d] = true; build(d, x, y); }
            else if (op == "movenew") { on[d] = true; new (mem[d]) T(std::move(at(s))); }
            else if (op == "assign") at(d) = std::move(at(s));
            else if (op == "reset") at(d).reset();
            else if (op == "del") { at(d).~T(); std::memset(mem[d], 0xB7, sizeof mem[d]); on[d] = false; }
            else if (op == "tick") gNow = t;
            else if (op == "read")
            {
                const T &r = at(d);
                using namespace std::chrono;
                auto cut = [](long long v, long long per)
                { return "[" + std::to_string(v / per) + "," + std::to_string(v % per) + "]"; };
                rd = "{\"sec\":[" + std::to_string(seconds(r.leaked_sec()).count()) + ",0],\"ms\":" + cut(milliseconds(r.leaked_milli_sec()).count(), 1000) +
                     ",\"us\":" + cut(microseconds(r.leaked_micro_sec()).count(), 1000000) + ",\"ns\":" + cut(nanoseconds(r.leaked_nano_sec()).count(), 1000000000) +
                     ",\"leaked\":" + pair_of(duration_cast<nanoseconds>(r.leaked()).count()) + ",\"tp\":" + pair_of(duration_cast<nanoseconds>(r.start_tp().time_since_epoch()).count()) + "}";
            }
            out += (out.empty() ? "" : ",") + std::string("{\"op\":\"") + op + "\",\"d\":" + std::to_string(d) + ",\"s\":" + std::to_string(s) +
                   ",\"y\":" + std::to_string(y) + ",\"now\":" + pair_of(gNow) + ",\"calls\":[" + calls + "],\"rd\":" + rd + ",\"tp\":[";
            for (int i = 1; i <= slots; ++i)
                out += (i > 1 ? "," : "") + (on[i] ? pair_of(std::chrono::duration_cast<std::chrono::nanoseconds>(at(i).start_tp().time_since_epoch()).count()) : std::string("[0,0]"));
            out += "]}";
        }
        return out;
    }
};

int main(int argc, char **argv)
{
    std::ifstream in(argv[1]);
    const int slots = std::atoi(argv[3]);
    std::vector<std::pair<int, std::vector<std::string>>> all;
    std::string ln;
    while (std::getline(in, ln))
        if (ln[0] == 'S') all.push_back({std::atoi(ln.c_str() + 2), {}});
        else if (!ln.empty()) all.back().second.push_back(ln);
    for (auto &s : all)
    {
        const pid_t pid = fork();
        if (!pid)
        {
            std::string o;
            if (s.first == 0) o = Run<utils::timer>::run(s.second, slots);
#ifndef ONLY_PUBLIC
            else if (s.first == 1) o = Run<utils::details::timer<16, 32, FakeClock>>::run(s.second, slots);
            else o = Run<utils::details::timer<8, 9, std::chrono::steady_clock>>::run(s.second, slots);
#else
            else o = Run<utils::timer>::run(s.second, slots);
#endif
            std::ofstream out(argv[2], std::ios::app);
            out << "{\"ev\":[" << o << "]}\n";
            out.close();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            std::ofstream out(argv[2], std::ios::app);
            out << "{\"ev\":[{\"op\":\"died\"}]}\n";
        }
    }
}
