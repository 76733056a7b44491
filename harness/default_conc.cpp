// Concurrent histories of set_default_resource / get_default_resource.
//   default_conc stress THREADS ROUNDS SEED OUT   free-running threads
//   default_conc sched  CAP SEED OUT              (VF_SCHED) every interleaving
//                                                 of the library's atomic steps
#include "pre.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <future>
#include <iostream>
#include <mutex>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <system_error>
#include <thread>

#ifdef VF_SCHED
static void vf_point();
namespace std
{
// an atomic whose every operation is a scheduling point
template <typename T>
struct vf_atomic
{
    constexpr vf_atomic() noexcept = default;
    constexpr vf_atomic(T v) noexcept : a(v) {}
    vf_atomic(const vf_atomic &) = delete;
    vf_atomic &operator=(const vf_atomic &) = delete;
    T operator=(T v) noexcept { store(v); return v; }
    operator T() const noexcept { return load(); }
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const noexcept { return true; }
    T load(memory_order = memory_order_seq_cst) const noexcept { vf_point(); return a.load(); }
    void store(T v, memory_order = memory_order_seq_cst) noexcept { vf_point(); a.store(v); }
    T exchange(T v, memory_order = memory_order_seq_cst) noexcept { vf_point(); return a.exchange(v); }
    bool compare_exchange_strong(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept
    { vf_point(); return a.compare_exchange_strong(e, d); }
    bool compare_exchange_weak(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept
    { vf_point(); return a.compare_exchange_strong(e, d); }
    atomic<T> a{};
};
template <typename T> T atomic_load(const vf_atomic<T> *p) noexcept { return p->load(); }
template <typename T> void atomic_store(vf_atomic<T> *p, T v) noexcept { p->store(v); }
template <typename T> T atomic_exchange(vf_atomic<T> *p, T v) noexcept { return p->exchange(v); }
template <typename T> T atomic_load_explicit(const vf_atomic<T> *p, memory_order) noexcept { return p->load(); }
template <typename T> void atomic_store_explicit(vf_atomic<T> *p, T v, memory_order) noexcept { p->store(v); }
template <typename T> T atomic_exchange_explicit(vf_atomic<T> *p, T v, memory_order) noexcept { return p->exchange(v); }
}  // namespace std
#define atomic vf_atomic
#include <utils/memory/memory.h>
#undef atomic
#else
#include <utils/memory/memory.h>
#endif

using res_t = utils::memory::memory_resource;
using namespace utils::memory;
namespace sysops::memory::ops
{
int posix_memalign(void **, std::size_t, std::size_t) noexcept { return 12; }
void free(void *) noexcept {}
}
struct Dummy : res_t
{
    Dummy() : res_t(&Dummy::allocate<Dummy>, &Dummy::deallocate<Dummy>) {}
    void *allocate_impl(std::size_t, std::size_t) noexcept { return nullptr; }
    void deallocate_impl(void *) noexcept {}
    bool is_equal(const res_t &o) const noexcept override { return this == &o; }
};
constexpr int kMaxT = 8, kMaxV = 16;
static Dummy gDummy[kMaxT * kMaxV];
static int id(const res_t *r)
{
    if (r == system_memory_resource()) return 1;
    for (int i = 0; i < kMaxT * kMaxV; ++i)
        if (r == &gDummy[i]) return 10 + i;
    return r == null_memory_resource() ? 2 : -1;
}
struct Call { bool set; int v; res_t *r; };
struct Block { std::uint64_t inv, res; int t; std::vector<Call> calls; };

static void perform(Call &c)
{
    c.r = c.set ? set_default_resource(&gDummy[c.v]) : get_default_resource();
}
static std::string history(std::vector<Block *> bs, res_t *last)
{
    std::vector<std::pair<std::uint64_t, std::pair<int, Block *>>> m;
    for (auto *b : bs) m.push_back({b->inv, {0, b}}), m.push_back({b->res, {1, b}});
    std::sort(m.begin(), m.end());
    std::ostringstream o;
    o << "{\"ev\":[";
    for (auto &x : m)
    {
        Block *b = x.second.second;
        if (x.second.first == 0)
        {
            o << "{\"op\":\"inv\",\"t\":" << b->t + 1 << ",\"calls\":[";
            for (std::size_t i = 0; i < b->calls.size(); ++i)
            {
                auto &c = b->calls[i];
                o << (i ? "," : "") << "{\"f\":\"" << (c.set ? "set" : "get") << "\",\"v\":" << (c.set ? 10 + c.v : 0)
                  << ",\"r\":" << id(c.r) << "}";
            }
            o << "]},";
        }
        else
            o << "{\"op\":\"res\",\"t\":" << b->t + 1 << "},";
    }
    o << "{\"op\":\"get\",\"r\":" << id(last) << "}]}";
    return o.str();
}

#ifdef VF_SCHED
// ------------------------------------------------------------ scheduler
struct Baton
{
    std::mutex m;
    std::condition_variable cv;
    int turn = -1;        // -1: controller
    bool done[kMaxT];
};
static Baton gB;
static thread_local int tMe = -1;
static void vf_point()
{
    if (tMe < 0) return;
    std::unique_lock<std::mutex> l(gB.m);
    gB.turn = -1;
    gB.cv.notify_all();
    gB.cv.wait(l, [] { return gB.turn == tMe; });
}
static std::string one(const std::vector<std::vector<Block>> &prog, std::vector<int> &choice, std::vector<int> &width, std::mt19937 *rnd)
{
    auto bs = prog;
    set_default_resource(system_memory_resource());
    std::uint64_t clock = 0;   // only the thread holding the baton touches it
    const int n = int(bs.size());
    for (int t = 0; t < n; ++t) gB.done[t] = false;
    gB.turn = -1;
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t)
        th.emplace_back([&, t]
        {
            tMe = t;
            {
                std::unique_lock<std::mutex> l(gB.m);
                gB.cv.wait(l, [&] { return gB.turn == t; });
            }
            for (auto &b : bs[t])
            {
                b.inv = ++clock;
                for (auto &c : b.calls) perform(c);
                b.res = ++clock;
            }
            std::unique_lock<std::mutex> l(gB.m);
            gB.done[t] = true;
            gB.turn = -1;
            gB.cv.notify_all();
        });
    std::size_t step = 0;
    while (true)
    {
        std::unique_lock<std::mutex> l(gB.m);
        gB.cv.wait(l, [] { return gB.turn == -1; });
        std::vector<int> can;
        for (int t = 0; t < n; ++t) if (!gB.done[t]) can.push_back(t);
        if (can.empty()) break;
        if (step == choice.size()) { choice.push_back(rnd ? int((*rnd)() % can.size()) : 0); width.push_back(0); }
        width[step] = int(can.size());
        gB.turn = can[std::size_t(std::min<int>(choice[step], int(can.size()) - 1))];
        ++step;
        gB.cv.notify_all();
        if (step > 2000) { std::cerr << "livelock\n"; std::_Exit(4); }
    }
    for (auto &x : th) x.join();
    choice.resize(step);
    width.resize(step);
    std::vector<Block *> all;
    for (auto &v : bs) for (auto &b : v) all.push_back(&b);
    return history(all, get_default_resource());
}
#endif

int main(int argc, char **argv)
{
    std::set<std::string> seen;
    const std::string mode = argv[1];
#ifdef VF_SCHED
    if (mode != "sched") return 3;
    const long cap = std::atol(argv[2]);
    std::mt19937 rnd(unsigned(std::atoi(argv[3])));
    long runs = 0;
    // every program of 2 or 3 threads with up to 2 calls each
    auto block = [](int t, int k, int what)
    { return Block{0, 0, t, {Call{what == 1, t * kMaxV + k, nullptr}}}; };
    std::vector<std::vector<std::vector<Block>>> progs;
    for (int n = 2; n <= 3; ++n)
        for (int calls = 1; calls <= (n == 2 ? 3 : 2); ++calls)
            for (int mask = 0; mask < (1 << (n * calls)); ++mask)
            {
                std::vector<std::vector<Block>> p(static_cast<std::size_t>(n));
                for (int t = 0; t < n; ++t)
                    for (int k = 0; k < calls; ++k)
                        p[std::size_t(t)].push_back(block(t, k, (mask >> (t * calls + k)) & 1));
                progs.push_back(p);
            }
    for (auto &p : progs)
    {
        std::vector<int> choice, width;
        long here = 0;
        while (true)
        {
            seen.insert(one(p, choice, width, nullptr));
            ++runs;
            if (++here >= cap) break;
            std::size_t i = choice.size();
            while (i > 0 && choice[i - 1] + 1 >= width[i - 1]) --i;
            if (i == 0) break;
            choice.resize(i);
            width.resize(i);
            ++choice[i - 1];
        }
    }
    std::ofstream out(argv[4]);
    for (auto &s : seen) out << s << "\n";
    std::cout << runs << "\n";
#else
    if (mode != "stress") return 3;
    const int n = std::atoi(argv[2]);
    const long rounds = std::atol(argv[3]);
    std::mt19937 rnd(unsigned(std::atoi(argv[4])));
    std::atomic<long> go{-1};
    std::atomic<int> ready{0};
    std::atomic<std::uint64_t> clock{0};
    std::vector<std::vector<Block>> bs(static_cast<std::size_t>(n));
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t)
        th.emplace_back([&, t]
        {
            for (long r = 0; r < rounds; ++r)
            {
                while (go.load() != r) ;
                for (auto &b : bs[std::size_t(t)])
                {
                    b.inv = ++clock;
                    for (auto &c : b.calls) perform(c);
                    b.res = ++clock;
                }
                ++ready;
            }
        });
    for (long r = 0; r < rounds; ++r)
    {
        const int shape = int(rnd() % 3);   // blocks x calls: 4x1, 2x3, 1x8
        const int nb = shape == 0 ? 4 : shape == 1 ? 2 : 1, nc = shape == 0 ? 1 : shape == 1 ? 3 : 8;
        for (int t = 0; t < n; ++t)
        {
            auto &v = bs[std::size_t(t)];
            v.clear();
            int k = 0;
            for (int b = 0; b < nb; ++b)
            {
                Block x{0, 0, t, {}};
                for (int c = 0; c < nc; ++c, ++k) x.calls.push_back({rnd() % 4 != 0, t * kMaxV + k, nullptr});
                v.push_back(x);
            }
        }
        set_default_resource(system_memory_resource());
        clock = 0;
        ready = 0;
        go = r;
        while (ready.load() != n) ;
        std::vector<Block *> all;
        for (auto &v : bs) for (auto &b : v) all.push_back(&b);
        seen.insert(history(all, get_default_resource()));
    }
    for (auto &x : th) x.join();
    std::ofstream out(argv[5]);
    for (auto &s : seen) out << s << "\n";
    std::cout << rounds << "\n";
#endif
}
