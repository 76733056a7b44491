// Sequential histories over two translation units; one JSON trace per script.
#include "default_unit.h"
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>

std::byte gSlot[8][256];
static std::vector<std::string> gEv;
static int gReach = 0;   // who was asked last

struct Rec : res_t
{
    int id;
    alignas(16) std::byte buf[64];
    explicit Rec(int i) : res_t(&Rec::allocate<Rec>, &Rec::deallocate<Rec>), id(i) {}
    void *allocate_impl(std::size_t, std::size_t) noexcept { gReach = id; return buf; }
    void deallocate_impl(void *p) noexcept { gReach = p == buf ? id : -1; }
    bool is_equal(const res_t &o) const noexcept override { return this == &o; }
};
alignas(64) static std::byte gSysBuf[256];
namespace sysops::memory::ops
{
int posix_memalign(void **p, std::size_t, std::size_t) noexcept { gReach = 1; *p = gSysBuf; return 0; }
void free(void *p) noexcept { gReach = p == gSysBuf ? 1 : -1; }
}
static Rec r3(3), r4(4);
static std::map<const res_t *, int> gId;

static int id(const res_t *r)
{
    auto it = gId.find(r);
    if (it != gId.end()) return it->second;
    const int n = r ? 100 + int(gId.size()) : -1;   // an object nobody should see
    return n;
}
static void ev(const std::string &op, int tu, int s, int v, int r)
{
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\",\"t\":" << tu << ",\"s\":" << s << ",\"v\":" << v << ",\"r\":" << r << "}";
    gEv.push_back(o.str());
}
static res_t *obj(int i)
{
    return i == 1 ? unit1.sys() : i == 2 ? unit1.nul() : i == 3 ? static_cast<res_t *>(&r3) : &r4;
}

static void run(const std::vector<std::string> &ops, int mode)
{
    gId[unit1.sys()] = 1;
    gId[unit1.nul()] = 2;
    gId[&r3] = 3;
    gId[&r4] = 4;
    for (auto *u : {&unit1, &unit2})
    {
        const int t = u == &unit1 ? 1 : 2;
        ev("sys", t, 0, 0, id(u->init_sys));
        ev("nul", t, 0, 0, id(u->init_nul));
        ev("get", t, 0, 0, id(u->init_def));
        ev("sys", t, 0, 0, id(u->sys()));
        ev("nul", t, 0, 0, id(u->nul()));
        ev("get", t, 0, 0, id(u->get()));
    }
    std::map<int, int> built;
    auto step = [&](const std::string &ln)
    {
        std::istringstream in(ln);
        std::string op;
        int tu, s, x;
        in >> op >> tu >> s >> x;
        Unit &u = tu == 1 ? unit1 : unit2;
        if (op == "set") { auto *old = u.set(obj(x)); ev("set", tu, 0, x, id(old)); }
        else if (op == "get") ev("get", tu, 0, 0, id(u.get()));
        else if (op == "build")
        {
            if (built[s]) u.drop(s);
            built[s] = 1;
            u.build(s, x ? obj(x) : nullptr);
            ev("build", tu, s, x, 0);
            if (s <= 2) ev("bound", tu, s, 0, id(u.bound(s)));
        }
        else if (op == "copy")
        {
            if (built[x]) u.drop(x);
            built[x] = 1;
            u.copy(s, x);
            ev("copy", tu, s, x, 0);
        }
        else if (op == "use")
        {
            gReach = 2;
            void *p = u.take(s);
            int r = gReach;
            if ((r == 2) != (p == nullptr)) r = -2;
            ev("use", tu, s, 0, r);
            if (p && s <= 3)
            {
                gReach = 2;
                u.give(s, p);
                ev("use", tu, s, 1, gReach);
            }
        }
        else if (op == "eq")
        {
            std::vector<const res_t *> rs{unit1.sys(), unit2.nul(), &r3, &r4};
            std::vector<int> is{1, 2, 3, 4};
            alignas(64) static std::byte m[4][256];
            using P = utils::memory::simple_resource<4, 8>;
            using M = utils::memory::monotonic_buffer_resource;
            rs.push_back(new (m[0]) P(nullptr, 0, &r3));
            rs.push_back(new (m[1]) P(nullptr, 0, &r3));
            rs.push_back(new (m[2]) M(nullptr, 0, &r3));
            rs.push_back(new (m[3]) M(nullptr, 0, &r3));
            for (int k = 11; k < 15; ++k) is.push_back(k);
            rs.push_back(unit2.sys()), is.push_back(1);
            for (std::size_t i = 0; i < rs.size(); ++i)
                for (std::size_t j = 0; j < rs.size(); ++j)
                    ev("same", tu, u.eq(rs[i], rs[j]), is[i], is[j]);
        }
    };
    for (auto &ln : ops)
        if (mode) std::thread([&] { step(ln); }).join();   // each call on its own thread
        else step(ln);
}

int main(int argc, char **argv)
{
    if (argc < 4) return 3;
    std::ifstream in(argv[1]);
    const int mode = std::atoi(argv[3]);
    std::vector<std::vector<std::string>> all;
    std::string ln;
    while (std::getline(in, ln))
        if (ln == "S") all.emplace_back();
        else if (!ln.empty()) all.back().push_back(ln);
    // one process per script: the default is process-wide
    for (std::size_t i = 0; i < all.size(); ++i)
    {
        std::fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0)
        {
            run(all[i], mode);
            std::ofstream out(argv[2], std::ios::app);
            out << "{\"ev\":[";
            for (std::size_t k = 0; k < gEv.size(); ++k) out << (k ? "," : "") << gEv[k];
            out << "]}\n";
            out.close();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            std::ofstream out(argv[2], std::ios::app);
            out << "{\"ev\":[{\"op\":\"died\",\"t\":0,\"s\":0,\"v\":0,\"r\":0}]}\n";
        }
    }
}
