// Tables of inputs run through a function at compile time and at run time.
#pragma once
#include "pre.h"
#include <cstdio>
using U64 = unsigned long long;
template <std::size_t K> struct In { U64 a[K]; };
template <std::size_t R> struct Res
{
    U64 v[R];
    constexpr bool operator==(const Res &o) const
    {
        for (std::size_t i = 0; i < R; ++i) if (v[i] != o.v[i]) return false;
        return true;
    }
};
template <typename T> constexpr U64 bits(T v) { return static_cast<U64>(static_cast<std::make_unsigned_t<T>>(v)); }
template <> constexpr U64 bits<bool>(bool v) { return v; }
template <typename F, std::size_t K, std::size_t N> constexpr auto ct_table(F f, const In<K> (&in)[N])
{
    struct { decltype(f(in[0])) v[N]; } t{};
    for (std::size_t i = 0; i < N; ++i) t.v[i] = f(in[i]);
    return t;
}
template <std::size_t R> bool differ(int group, const char *when, std::size_t i, const Res<R> &got, const Res<R> &want)
{
    if (got == want) return false;
    std::printf("D %d %s %zu", group, when, i);
    for (U64 v : got.v) std::printf(" %llu", v);
    std::printf("\n");
    return true;
}
template <typename F, std::size_t K, std::size_t N, std::size_t R> void rt_check(int group, F f, const In<K> (&in)[N], const Res<R> (&want)[N])
{
    const In<K> *volatile p = in;
    int bad = 0;
    for (std::size_t i = 0; i < N && bad < 3; ++i)
    {
        const In<K> *q = p + i;
        bad += differ(group, "run", i, f(*q), want[i]);
    }
    std::printf("G %d %zu\n", group, N);
}
template <typename T, std::size_t N, std::size_t R> void ct_check(int group, const T &t, const Res<R> (&want)[N])
{
    int bad = 0;
    for (std::size_t i = 0; i < N && bad < 3; ++i) bad += differ(group, "compile", i, t.v[i], want[i]);
    std::printf("C %d %zu\n", group, N);
}
