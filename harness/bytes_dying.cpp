// Buffers wiped just before they die; afterwards the stack they lived on is
// searched for what they held.
#include "pre.h"
#include <iostream>
#include <pthread.h>
#include <sys/mman.h>
#include <utils/memory/memory.h>
using std::size_t;
namespace sysops::memory::ops
{
int posix_memalign(void **, size_t, size_t) noexcept { return 12; }
void free(void *) noexcept {}
}
namespace um = utils::memory;

// a byte sequence that exists nowhere but where fill() put it
static unsigned char at(size_t i) { return static_cast<unsigned char>((i * 37 + 0x5B) ^ (i >> 3)); }
__attribute__((noinline)) static void fill_impl(std::byte *p, size_t n)
{
    volatile std::byte *v = p;
    for (size_t i = 0; i < n; ++i) v[i] = std::byte(at(i));
}
static void (*volatile fill)(std::byte *, size_t) = fill_impl;

template <size_t N> struct Key
{
    std::byte b[N];
    Key() { fill(b, N); }
    ~Key() { um::secure_zero_memory(b, N); }
};
template <size_t N> __attribute__((noinline)) static void plain() { std::byte b[N]; fill(b, N); }
template <size_t N> __attribute__((noinline)) static void local() { std::byte b[N]; fill(b, N); um::secure_zero_memory(b, N); }
template <size_t N> __attribute__((noinline)) static void localsafe() { std::byte b[N]; fill(b, N); (void)um::secure_zero_memory_safe(b, N); }
template <size_t N> __attribute__((noinline)) static void inkey() { Key<N> k; }
template <size_t N> __attribute__((noinline)) static void sized(size_t n) { std::byte b[N]; fill(b, n); um::secure_zero_memory(b, n); }
template <size_t N> __attribute__((noinline)) static void twice() { std::byte b[N]; fill(b, N); um::secure_zero_memory(b, N); fill(b, N); um::secure_zero_memory(b, N); }
template <size_t N> __attribute__((noinline)) static void arr() { std::array<std::byte, N> a; fill(a.data(), N); um::secure_zero_memory(a.data(), a.size()); }
template <size_t N> __attribute__((noinline)) static void moved() { std::byte a[N], b[N]; fill(a, N); um::memmove(b, a, N); um::secure_zero_memory(a, N); um::secure_zero_memory(b, N); }

constexpr size_t kStack = 256 << 10;
static std::byte *gStack;
static size_t residue(size_t n)
{
    // longest run of the sequence (from its start) anywhere on the stack
    size_t best = 0;
    for (size_t i = 0; i + n <= kStack; ++i)
    {
        size_t k = 0;
        while (k < n && gStack[i + k] == std::byte(at(k))) ++k;
        best = k > best ? k : best;
        // or from the middle: half wiped buffers
        if (n >= 8)
        {
            size_t h = n / 2, q = 0;
            while (h + q < n && i + q < kStack && gStack[i + q] == std::byte(at(h + q))) ++q;
            best = q > best ? q : best;
            size_t t = n - 4, z = 0;
            while (z < 4 && gStack[i + z] == std::byte(at(t + z))) ++z;
            if (z == 4 && best < 4) best = 4;
        }
    }
    return best >= 4 ? best : 0;
}
static bool first = true;
template <typename F>
static void trial(F f, size_t n, bool wiped)
{
    std::memset(gStack, 0, kStack);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, gStack, kStack);
    pthread_t t;
    auto body = [](void *g) -> void * { (*static_cast<F *>(g))(); return nullptr; };
    if (pthread_create(&t, &a, body, &f)) { std::cerr << "thread\n"; std::exit(3); }
    pthread_join(t, nullptr);
    std::cout << (first ? "" : ",") << "{\"f\":\"dies\",\"d\":" << residue(n) << ",\"s\":" << wiped
              << ",\"n\":" << n << ",\"r\":0,\"m\":[]}";
    first = false;
}
template <size_t N> static void all()
{
    trial([] { plain<N>(); }, N, false);
    trial([] { local<N>(); }, N, true);
    trial([] { localsafe<N>(); }, N, true);
    trial([] { inkey<N>(); }, N, true);
    trial([] { sized<N>(N); }, N, true);
    trial([] { sized<N + 9>(N); }, N, true);
    trial([] { twice<N>(); }, N, true);
    trial([] { arr<N>(); }, N, true);
    trial([] { moved<N>(); }, N, true);
}
int main()
{
    gStack = static_cast<std::byte *>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    std::cout << "{\"ev\":[";
    all<8>(); all<13>(); all<16>(); all<31>(); all<32>(); all<64>(); all<100>(); all<256>(); all<1000>(); all<4096>();
    std::cout << "]}\n";
}
