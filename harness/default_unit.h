// One translation unit's view of the process-wide resources.
#pragma once
#include "pre.h"
#include <utils/memory/memory.h>
#include <utils/memory/allocator.h>
#include <utils/memory/simple_resource.h>
#include <utils/memory/monotonic_buffer_resource.h>

using res_t = utils::memory::memory_resource;
struct Unit
{
    res_t *init_sys, *init_nul, *init_def;   // as seen before main
    res_t *(*sys)();
    res_t *(*nul)();
    res_t *(*get)();
    res_t *(*set)(res_t *);
    void (*build)(int slot, res_t *up);      // null: no explicit upstream
    void (*drop)(int slot);
    void (*copy)(int from, int to);
    void *(*take)(int slot);
    void (*give)(int slot, void *p);
    res_t *(*bound)(int slot);
    int (*eq)(const res_t *a, const res_t *b);   // 1, 0, or -1 if == and != disagree
};
extern Unit unit1, unit2;
extern std::byte gSlot[8][256];
