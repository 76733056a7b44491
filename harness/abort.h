// C30: every case runs in a child process of its own; the parent reports how
// it ended, what it evaluated and what it wrote.
#include "pre.h"
#include <csignal>
#include <exception>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <utils/common.h>
struct Shared { int conds[64], args[64], extra; };
static Shared *gS;
template <typename T> static T cnd(int i, T v) { ++gS->conds[i]; return v; }
template <typename T> static T arg(int i, T v) { ++gS->args[i]; return v; }
struct Yes { operator bool() const { return true; } };
struct No { operator bool() const { return false; } };
struct Case { int id; void (*run)(); };
static void hex(const std::string &s) { putchar(' '); putchar('x'); for (unsigned char c : s) printf("%02x", c); }
static void drain(int a, int b, std::string &x, std::string &y) {
    pollfd p[2] = {{a, POLLIN, 0}, {b, POLLIN, 0}};
    int open = 2;
    while (open) {
        poll(p, 2, -1);
        for (int i = 0; i < 2; ++i) if (p[i].fd >= 0 && p[i].revents) {
            char buf[65536]; ssize_t n = read(p[i].fd, buf, sizeof buf);
            if (n > 0) (i ? y : x).append(buf, n); else { close(p[i].fd); p[i].fd = -1; --open; }
        }
    }
}
static int run_cases(const Case *c, int n) {
    gS = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    rlimit none{0, 0}; setrlimit(RLIMIT_CORE, &none);
    for (int i = 0; i < n; ++i) {
        *gS = Shared{};
        int e[2], o[2];
        if (pipe(e) || pipe(o)) return 2;
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (!pid) {
            dup2(e[1], 2); dup2(o[1], 1); close(e[0]); close(o[0]); close(e[1]); close(o[1]);
            // other ways out of the program are marked as such
            std::set_terminate([] { gS->extra |= 1; _exit(90); });
            std::atexit([] { gS->extra |= 2; });
            std::at_quick_exit([] { gS->extra |= 4; });
            alarm(60);
            c[i].run();
            fflush(stdout);
            _exit(0);
        }
        close(e[1]); close(o[1]);
        std::string err, out;
        drain(e[0], o[0], err, out);
        int st = 0; waitpid(pid, &st, 0);
        printf("%d %d %d %d", c[i].id, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1, gS->extra);
        for (int k = 0; k < 16; ++k) printf(" %d", gS->conds[k]);
        for (int k = 0; k < 16; ++k) printf(" %d", gS->args[k]);
        hex(err); hex(out); putchar('\n');
    }
    return 0;
}
