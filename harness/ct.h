// Rows of results computed at compile time: each row is {length, values...}.
#pragma once
#include "pre.h"
#include <cstdio>
struct Row { int n; const long *p; };
template <typename T> struct id { static constexpr long v = -1; };
inline void print_rows(const Row *r, std::size_t count)
{
    for (std::size_t i = 0; i < count; ++i)
    {
        std::printf("%d", r[i].n);
        for (long k = 1; k <= r[i].p[0]; ++k) std::printf(" %ld", r[i].p[k]);
        std::printf("\n");
    }
}
