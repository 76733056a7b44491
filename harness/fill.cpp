// Fill test on blocks that end or begin at an inaccessible page.
#include "pre.h"
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <unistd.h>
#include <sys/mman.h>
#include <utils/common.h>
// Blocks of cells of many equal bytes each: all pages of a cell are the same.
static bool large(const std::vector<unsigned char> &b, std::size_t unit, long v)
{
    const std::size_t share = unit < (std::size_t(1) << 21) ? 4096 : std::size_t(1) << 21, pad = 1u << 22;
    static int fds[256][2];
    const std::size_t cell = (unit + share - 1) / share * share, len = cell * b.size();
    auto *m = static_cast<unsigned char *>(mmap(nullptr, len + pad, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (m == MAP_FAILED) _exit(4);
    for (std::size_t i = 0; i < b.size(); ++i)
    {
        int &fd = fds[b[i]][share > 4096];
        if (!fd)
        {
            std::vector<unsigned char> all(share, b[i]);
            fd = memfd_create("cell", 0);
            if (fd < 0 || write(fd, all.data(), share) != long(share)) _exit(4);
        }
        for (std::size_t k = 0; k < cell; k += share)
            if (mmap(m + i * cell + k, share, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(4);
    }
    const bool r = utils::memvcmp(static_cast<const void *>(m), static_cast<unsigned char>(v), len);
    munmap(m, len + pad);
    return r;
}

int main(int argc, char **argv)
{
    const std::size_t page = 4096;
    auto *m = static_cast<unsigned char *>(mmap(nullptr, 9 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED || mprotect(m, page, PROT_NONE) || mprotect(m + 8 * page, page, PROT_NONE) || argc < 2) return 3;
    unsigned char *const lo = m + page, *const hi = m + 8 * page;
    const rlimit cpu{200, 200};
    setrlimit(RLIMIT_CPU, &cpu);
    std::ifstream in(argv[1]);
    long n, v;
    std::size_t line = 0;
    std::string out;
    while (in >> n >> v)
    {
        const std::size_t unit = n >= 2000000 ? (std::size_t(1) << 31) + 4096 : n >= 1000000 ? 36864 : 1;
        std::vector<unsigned char> b(n > 0 ? n % 1000000 : 0);
        for (auto &x : b) { int y; in >> y; x = static_cast<unsigned char>(y); }
        ++line;
        std::cerr << line << '\n';
        if (n < 0)
        {   // null pointer, any size
            std::cout << utils::memvcmp(nullptr, static_cast<unsigned char>(v), static_cast<std::size_t>(-n - 1)) << '\n';
            continue;
        }
        if (unit > 1)
        {
            std::cout << large(b, unit, v) << '\n';
            continue;
        }
        // at the start of accessible memory, at its end, and in between at
        // every alignment with either neighbour
        std::string r;
        // the bytes outside are all like the first, then all different
        for (int around = 0; around < 2; ++around)
            for (int place = 0; place < 10; ++place)
            {
                unsigned char *p = place == 8 ? lo : place == 9 ? hi - n : lo + page + place;
                std::memset(lo, around ? ~static_cast<int>(v) & 255 : static_cast<int>(v), 7 * page);
                if (n) std::memcpy(p, b.data(), b.size());
                const bool got = utils::memvcmp(static_cast<const void *>(p), static_cast<unsigned char>(v), b.size());
                r += got ? '1' : '0';
            }
        std::cout << (r == std::string(20, '1') ? "1" : r == std::string(20, '0') ? "0" : r) << '\n';
    }
}
