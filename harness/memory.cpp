// Executes scripts of operations on chains of real memory resources and
// records every event as one JSON trace per script.  Contains no oracle.
#include "pre.h"

#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <map>
#include <sstream>

#include <utils/memory/memory.h>
#include <utils/memory/simple_resource.h>
#include <utils/memory/monotonic_buffer_resource.h>

using namespace utils::memory;
using std::size_t;

static std::byte *gArena;                 // 8 MB, base aligned to 2^32 or more
constexpr size_t kArena = 8u << 20;
// Lengths, sizes, alignments and addresses of a script are in units of 2^gSh
// bytes.  With large units the memory is only reserved and never looked at.
static int gSh = 0;
static size_t unit(long n) { return size_t(n) << gSh; }
static std::byte *gSmall, *gBig;
// Pools whose buffer has room for 2^32 times more blocks than they can manage.
static bool gMore = false;
constexpr size_t kSysOff = 4u << 20;      // system blocks live here

struct Shared
{
    size_t len;
    size_t pending_len;
    char pending[4096];
    char buf[16 << 20];
};
static Shared *gS;

static void emit(const std::string &s)
{
    if (gS->len + s.size() < sizeof(gS->buf))
    {
        std::memcpy(gS->buf + gS->len, s.data(), s.size());
        gS->len += s.size();
    }
}

// ---------------------------------------------------------------- system
struct SysCall
{
    char k;
    bool ok, cover;
    long a;
};
static std::vector<SysCall> gCalls;
static size_t gSysNext = kSysOff;
static bool gSysFail = false;
static size_t gReqSize = 0, gReqAlign = 0;
static std::map<long, size_t> gOut;  // outstanding system blocks

static long addr_of(const void *p)
{
    auto b = static_cast<const std::byte *>(p);
    const long off = b - gArena;
    if (off < 0) return -2;
    if (gSh) return (size_t(off) >> 45) || off % long(unit(1)) ? -2 : off >> gSh;
    return size_t(off) < kArena ? off : -2;
}

namespace sysops::memory::ops
{
int posix_memalign(void **aPtr, size_t aAlignment, size_t aSize) noexcept
{
    const bool cover = aSize >= gReqSize && aAlignment >= gReqAlign;
    size_t at = gSysNext;
    // as POSIX asks: a power of two multiple of sizeof(void *)
    bool ok = !gSysFail && !gSh && aAlignment && !(aAlignment & (aAlignment - 1)) &&
              aAlignment % sizeof(void *) == 0 &&
              aAlignment <= (1u << 22) && aSize <= (1u << 20);
    if (ok)
    {
        at = (at + aAlignment - 1) & ~(aAlignment - 1);
        ok = at + aSize + 64 <= kArena;
    }
    if (!ok)
    {
        gCalls.push_back({'a', false, cover, -1});
        *aPtr = gSmall + kSysOff / 2;   // undefined after a failure
        return 12;
    }
    gSysNext = at + aSize + 64;
    *aPtr = gArena + at;
    gOut[long(at)] = aSize;
    gCalls.push_back({'a', true, cover, long(at)});
    return 0;
}
void free(void *aPtr) noexcept
{
    if (!aPtr) return;
    const long a = addr_of(aPtr);
    const bool known = gOut.erase(a) > 0;
    gCalls.push_back({'f', known, true, known ? a : -3});
}
}  // namespace sysops::memory::ops

// ---------------------------------------------------------------- levels
struct Level
{
    std::string kind;
    long B, lb, M, base, len;
    int ctor;
    virtual ~Level() = default;
    virtual memory_resource *res() = 0;
    virtual void build(memory_resource *up) = 0;
    virtual void destroy() = 0;
    virtual void release() = 0;
    virtual std::string proj() = 0;
    virtual long blocks_at(const void *p) = 0;
    std::byte *ptr() const { return base < 0 ? nullptr : gArena + unit(base); }
};

template <typename R>
struct LevelOf : Level
{
    alignas(R) std::byte mem[sizeof(R)];
    R *r = nullptr;
    memory_resource *res() override { return r; }
    void build(memory_resource *up) override
    {
        std::memset(mem, 0xA5, sizeof(mem));
        std::byte *p = ptr();
        memory_resource *old = nullptr;
        if (ctor & 1) old = set_default_resource(up);
        const size_t bytes = unit(len) + (gMore ? (size_t(B) << 32) - size_t(2 * B) : 0);
        if (ctor == 3 && bytes == 64)
            r = new (mem) R(*reinterpret_cast<std::byte(*)[64]>(p));
        else if (ctor == 2 && bytes == 64)
            r = new (mem) R(*reinterpret_cast<std::byte(*)[64]>(p), up);
        else if (ctor & 1)
            r = new (mem) R(p, bytes);
        else
            r = new (mem) R(p, bytes, up);
        // the default in force now must not matter any more
        if (ctor & 1) set_default_resource(old);
    }
    void destroy() override { r->~R(); }
    void release() override { r->release(); }
    long blocks_at(const void *p) override
    {
        if constexpr (!std::is_same_v<R, monotonic_buffer_resource>)
        {
            const long off = static_cast<const std::byte *>(p) - r->data();
            if (!r->data() || off < 0 || off >= long(r->size())) return 0;
            using I = typename R::BIndex;
            return long(r->block_size(I(off / long(unit(B)))));
        }
        return 0;
    }
    std::string proj() override
    {
        std::ostringstream o;
        o << "{\"size\":" << (r->size() % unit(1) ? -1L : long(r->size() >> gSh))
          << ",\"org\":" << (r->data() ? addr_of(r->data()) : -1L);
        if constexpr (std::is_same_v<R, monotonic_buffer_resource>)
        {
            o << ",\"fc\":0,\"bc\":0,\"by\":true,\"rg\":[]}";
        }
        else
        {
            const long n = long(r->size() / unit(B));
            o << ",\"fc\":" << r->free_count() << ",\"bc\":" << r->busy_count();
            bool by = true;
            std::string rg;
            using I = typename R::BIndex;
            long i = 0, steps = 0;
            while (n > 0)
            {
                const long s = long(r->block_size(I(i)));
                by = by && r->block_size_in_bytes(I(i)) == size_t(s) * unit(B);
                rg += (steps ? ",[" : "[") + std::to_string(i) + "," +
                      std::to_string(s) + "," + (r->in_use(I(i)) ? "1" : "0") +
                      "," + std::to_string(long(static_cast<const R *>(r)->at(I(i)).prev_index())) + "]";
                const long nx = long(static_cast<const R *>(r)->at(I(i)).next_index());
                if (nx == 0) break;
                if (nx <= i || nx >= n || ++steps > n)
                {
                    rg += ",[-1,-1,-1,-1]";
                    break;
                }
                i = nx;
            }
            o << ",\"by\":" << (by ? "true" : "false") << ",\"rg\":[" << rg << "]}";
        }
        return o.str();
    }
};

template <size_t M, size_t B>
static std::unique_ptr<Level> pool()
{
    return std::make_unique<LevelOf<simple_resource<M, B>>>();
}

static std::unique_ptr<Level> make_level(const std::string &kind, long M, long B)
{
    if (kind == "mono") return std::make_unique<LevelOf<monotonic_buffer_resource>>();
    if (gSh == 28)
    {
#define P(m, b) if (M == m && B == b) return pool<m, size_t(b) << 28>();
        P(4, 8) P(2, 8) P(3, 8) P(12, 8) P(257, 1)
#undef P
    }
    if (gSh == 33)
    {
#define P(m, b) if (M == m && B == b) return pool<m, size_t(b) << 33>();
        P(3, 1) P(2, 8) P(12, 2) P(300, 1)
#undef P
    }
    if (gSh) exit(3);
#define P(m, b) if (M == m && B == b) return pool<m, b>();
    P(1, 8) P(1, 64) P(2, 8) P(3, 8) P(4, 8) P(5, 8) P(6, 8) P(7, 8) P(8, 8) P(12, 8) P(3, 16) P(6, 16) P(5, 1)
    P(8, 1) P(5, 2) P(5, 4) P(4, 32) P(4, 64) P(5, 4096) P(255, 8) P(256, 8)
    P(257, 8) P(300, 8) P(300, 1) P(64, 16) P(65535, 8) P(65537, 8) P(1000, 32)
#undef P
    std::cerr << "no such pool " << M << " " << B << "\n";
    std::exit(3);
}

// ---------------------------------------------------------------- run
struct Alive
{
    std::byte *p;
    size_t n;
    unsigned char tag;
    int lv;
};

static size_t real_size(long s)
{
    if (s >= 0) return size_t(s);
    const long k = -s;
    if (k < 1000000) return size_t(0) - size_t(k);            // 2^64 - k
    if (k < 2000000) return (size_t(1) << 63) + size_t(k - 1500000);
    return (size_t(1) << 32) + size_t(k - 2000000);           // 2^32 + ...
}

static bool filled(const std::byte *p, size_t n, unsigned char tag)
{
    for (size_t i = 0; i < n; ++i)
        if (p[i] != std::byte(tag)) return false;
    return true;
}

// Asks for gReqSize bytes at gReqAlign by one of the ways to write that.
template <size_t A, size_t N> struct alignas(A) Thing { std::byte b[N]; };
static void *request(memory_resource *r, long way)
{
    if (way % 2 && gReqAlign == alignof(std::max_align_t)) return r->allocate(gReqSize);
#define AS(a, n) if (way % 3 && gReqAlign == a && gReqSize == n) return r->allocate<Thing<a, n>>();
    AS(1, 1) AS(1, 7) AS(1, 8) AS(1, 9) AS(1, 33) AS(8, 8) AS(8, 16) AS(8, 24) AS(8, 32) AS(8, 64)
    AS(16, 16) AS(16, 32) AS(32, 32) AS(32, 64) AS(64, 64)
#undef AS
    return r->allocate(gReqSize, gReqAlign);
}

struct Script
{
    std::string cfg;   // JSON of the configuration, passed through
    std::string term;
    std::vector<std::array<long, 7>> lv;  // kind(0 pool,1 mono) B M base len ctor sh
    std::vector<std::string> ops;
};

static void run(const Script &s)
{
    gMore = s.lv[0][6] < 0;
    gSh = gMore ? 0 : int(s.lv[0][6]);
    gArena = gSh ? gBig : gSmall;
    std::vector<std::unique_ptr<Level>> L;
    bool pools = true;
    for (auto &d : s.lv)
    {
        auto l = make_level(d[0] ? "mono" : "pool", d[2], d[1]);
        l->kind = d[0] ? "mono" : "pool";
        l->B = d[1]; l->M = d[2]; l->base = d[3]; l->len = d[4]; l->ctor = int(d[5]);
        pools = pools && !d[0];
        L.push_back(std::move(l));
    }
    memory_resource *term = s.term == "sys" ? system_memory_resource()
                            : s.term == "null" ? null_memory_resource() : nullptr;
    if (!gSh) std::memset(gArena, 0xEE, 1u << 19);
    auto upstream = [&](size_t i) { return i + 1 < L.size() ? L[i + 1]->res() : term; };

    std::map<long, Alive> alive;
    const size_t G = 64;
    // the bytes around a buffer, unless they belong to another level
    auto untouched = [&](long from, long to)
    {
        for (long a = from; a < to; ++a)
        {
            bool owned = a < 0;
            for (auto &l : L) owned = owned || (l->base >= 0 && a >= l->base && a < l->base + l->len);
            if (!owned && gArena[a] != std::byte(0xEE)) return false;
        }
        return true;
    };
    auto intact = [&]
    {
        if (gSh) return true;
        for (auto &kv : alive)
            if (!filled(kv.second.p, kv.second.n, kv.second.tag)) return false;
        for (auto &l : L)
            if (l->base >= 0)
            {
                if (!untouched(l->base - long(G), l->base)) return false;
                if (!untouched(l->base + l->len, l->base + l->len + long(G))) return false;
            }
        return true;
    };
    auto finish = [&](const std::string &head, const std::string &res)
    {
        std::string sys = "[";
        for (size_t i = 0; i < gCalls.size(); ++i)
        {
            auto &c = gCalls[i];
            sys += std::string(i ? "," : "") + "{\"k\":\"" + c.k + "\",\"ok\":" +
                   (c.ok ? "true" : "false") + ",\"cover\":" + (c.cover ? "true" : "false") +
                   ",\"a\":" + std::to_string(c.a) + "}";
        }
        sys += "]";
        const bool ok = intact();
        std::string st = "[";
        for (size_t i = 0; i < L.size(); ++i) st += (i ? "," : "") + L[i]->proj();
        st += "]";
        gCalls.clear();
        emit(head + res + ",\"sys\":" + sys + ",\"intact\":" + (ok ? "true" : "false") +
             ",\"out\":\"ok\",\"st\":" + st + "},\n");
        gS->pending_len = 0;
    };
    auto pend = [&](const std::string &head)
    {
        std::memcpy(gS->pending, head.data(), head.size());
        gS->pending_len = head.size();
    };
    auto mk = [](const char *op, long r, long h, long sz, long al, long a)
    {
        std::ostringstream o;
        o << "{\"op\":\"" << op << "\",\"r\":" << r << ",\"h\":" << h << ",\"sz\":" << sz
          << ",\"al\":" << al;
        if (a != LONG_MIN) o << ",\"a\":" << a << ",\"lv\":0,\"n\":0";
        return o.str();
    };

    {
        auto h = mk("start", 0, 0, 0, 0, 0);
        pend(h);
        for (size_t i = L.size(); i-- > 0;) L[i]->build(upstream(i));
        // every two resources compared, also ones over no or the same memory
        alignas(64) static std::byte twice[64];
        monotonic_buffer_resource m1(twice, 64, nullptr), m2(twice, 64, nullptr), m3(nullptr, 0, nullptr), m4(nullptr, 0, nullptr), m5(twice, 32, term);
        simple_resource<4, 16> p1(twice, 64, nullptr), p2(twice, 64, nullptr), p3(nullptr, 0, nullptr), p4(nullptr, 0, nullptr);
        simple_resource<8, 8> p5(twice, 64, nullptr);
        std::vector<const memory_resource *> all{&m1, &m2, &m3, &m4, &m5, &p1, &p2, &p3, &p4, &p5, system_memory_resource(), null_memory_resource()};
        for (auto &l : L) all.push_back(l->res());
        std::string eq;
        for (auto x : all)
        {
            std::string row;
            for (auto y : all)
            {
                const bool e = *x == *y;
                const bool same = e == x->is_equal(*y) && e != (*x != *y);
                row += std::string(row.empty() ? "" : ",") + (!same ? "2" : e ? "1" : "0");
            }
            eq += (eq.empty() ? "[" : ",[") + row + "]";
        }
        finish(h, ",\"eq\":[" + eq + "]");
    }

    long handle = 0;
    std::map<long, void *> ptrs;   // handle -> pointer (non-null)
    std::map<long, int> via;
    for (auto &line : s.ops)
    {
        std::istringstream in(line);
        char c;
        in >> c;
        if (c == 'A')
        {
            long r, sz, al; int fail;
            in >> r >> sz >> al >> fail;
            ++handle;
            auto hd = mk("alloc", r, handle, sz, al, LONG_MIN);
            pend(hd + ",\"a\":0,\"lv\":0,\"n\":0");
            gSysFail = fail;
            gReqSize = real_size(sz);
            gReqAlign = size_t(1) << (al + gSh);
            if (gSh && sz > 0)
            {
                gReqSize = unit(sz);
                // in pools a few bytes less than whole units make no difference
                if (pools) gReqSize -= size_t(handle * 7919) * 131 % (unit(1) / 2);
            }
            void *p = request(L[size_t(r - 1)]->res(), handle);
            long lv = 0, a = 0, n = 0;
            if (p)
            {
                a = addr_of(p);
                lv = 99;
                for (size_t i = 0; i < L.size(); ++i)
                    if (L[i]->base >= 0 && a >= L[i]->base && a < L[i]->base + L[i]->len) lv = long(i + 1);
                if (lv == 99 && a >= long(kSysOff)) lv = long(L.size() + 1);
                if (lv >= 1 && lv <= long(L.size())) n = L[size_t(lv - 1)]->blocks_at(p);
                if (a >= 0)
                {
                    ptrs[handle] = p;
                    via[handle] = int(r);
                    // only what surely lies in the arena can be written
                    if (lv != 99 && sz > 0 && (gSh || size_t(a) + size_t(sz) < kArena))
                    {
                        Alive v{static_cast<std::byte *>(p), gSh ? 0 : size_t(sz), static_cast<unsigned char>(1 + handle % 200), int(lv)};
                        std::memset(v.p, v.tag, v.n);
                        alive[handle] = v;
                    }
                }
                else
                    a = -2;
            }
            finish(hd, ",\"lv\":" + std::to_string(lv) + ",\"a\":" + std::to_string(a) +
                           ",\"n\":" + std::to_string(n));
        }
        else if (c == 'F')
        {
            long h;
            in >> h;
            auto it = ptrs.find(h);
            if (it == ptrs.end()) continue;   // that allocation had failed
            auto hd = mk("free", via[h], h, 0, 0, 0);
            pend(hd);
            if (!alive.count(h) || filled(alive[h].p, alive[h].n, alive[h].tag))
            {
                if (alive.count(h) && L[size_t(via[h] - 1)]->kind == "pool")
                    std::memset(alive[h].p, 0xEE, alive[h].n);
                alive.erase(h);
            }
            void *p = it->second;
            ptrs.erase(it);
            L[size_t(via[h] - 1)]->res()->deallocate(p);
            finish(hd, "");
        }
        else if (c == 'N')
        {
            long r;
            in >> r;
            auto hd = mk("freenull", r, 0, 0, 0, 0);
            pend(hd);
            L[size_t(r - 1)]->res()->deallocate(nullptr);
            finish(hd, "");
        }
        else if (c == 'R' || c == 'D' || c == 'd')
        {
            long r;
            in >> r;
            auto hd = mk(c == 'R' ? "release" : c == 'D' ? "rebuild" : "destroybusy", r, 0, 0, 0, 0);
            pend(hd);
            auto &l = L[size_t(r - 1)];
            if (c == 'R') l->release();
            else
            {
                l->destroy();
                l->build(upstream(size_t(r - 1)));
                if (r > 1)  // same object address, upper levels stay valid
                    (void)0;
            }
            if (c == 'R' || l->kind == "mono")
                for (auto it = alive.begin(); it != alive.end();)
                    if (it->second.lv == r)
                    {
                        ptrs.erase(it->first);
                        it = alive.erase(it);
                    }
                    else
                        ++it;
            finish(hd, "");
        }
        else if (c == 'B')
        {
            long r, a;
            in >> r >> a;
            auto hd = mk("bad", r, 0, 0, 0, a);
            pend(hd);
            L[size_t(r - 1)]->res()->deallocate(gArena + unit(a));
            finish(hd, "");
        }
    }
}

int main(int argc, char **argv)
{
    if (argc < 3) return 3;
    void *want = reinterpret_cast<void *>(size_t(6) << 32);
    void *m = mmap(want, kArena, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (m != want) { std::cerr << "arena\n"; return 3; }
    gSmall = static_cast<std::byte *>(m);
    // 2^45 bytes of addresses of which 2^43 are reserved where possible
    gBig = reinterpret_cast<std::byte *>(size_t(1) << 45);
    (void)mmap(gBig, size_t(1) << 43, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    gS = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    std::vector<Script> all;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        if (line[0] == 'S')
        {
            all.emplace_back();
            std::istringstream is(line.substr(1));
            is >> all.back().term;
            std::getline(is, all.back().cfg);
        }
        else if (line[0] == 'L')
        {
            std::istringstream is(line.substr(1));
            std::array<long, 7> d;
            for (auto &x : d) is >> x;
            all.back().lv.push_back(d);
        }
        else
            all.back().ops.push_back(line);
    }
    const int devnull = open("/dev/null", O_WRONLY);
    size_t died = 0, hung = 0;
    for (auto &s : all)
    {
        gS->len = gS->pending_len = 0;
        const pid_t pid = fork();
        if (pid == 0)
        {
            dup2(devnull, 2);
            itimerval tv{{0, 0}, {2, 0}};
            setitimer(ITIMER_VIRTUAL, &tv, nullptr);
            run(s);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::string ev(gS->buf, gS->len);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            ++died;
            const int sig = WIFSIGNALED(st) ? WTERMSIG(st) : -1;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
            hung += sig == SIGVTALRM;
            const char *o = sig == SIGABRT ? "abort" : sig == SIGVTALRM ? "hang" : "sig";
            std::string pd(gS->pending, gS->pending_len);
// memory of the program itself was damaged: no action explains that
            if (pd.empty()) pd = "{\"op\":\"limbo\",\"r\":0,\"h\":0,\"sz\":0,\"al\":0,\"a\":0,\"lv\":0,\"n\":0";
            ev += pd + ",\"sys\":[],\"intact\":true,\"out\":\"" + o + "\",\"st\":[]},\n";
        }
        if (ev.size() >= 2) ev.erase(ev.size() - 2);
        for (auto &ch : ev) if (ch == '\n') ch = ' ';
        out << "{\"cfg\":" << s.cfg << ",\"ev\":[" << ev << "]}\n";
        if (hung >= 3) break;   // enough evidence; each costs seconds
    }
    std::cerr << all.size() << " scripts, " << died << " died\n";
    return 0;
}
