#include "default_unit.h"
namespace
{
using namespace utils::memory;
using A = allocator<int>;
using P = simple_resource<4, 8>;
using M = monotonic_buffer_resource;
template <typename T> T *at(int s) { return std::launder(reinterpret_cast<T *>(gSlot[s])); }

res_t *f_sys() { return system_memory_resource(); }
res_t *f_nul() { return null_memory_resource(); }
res_t *f_get() { return get_default_resource(); }
res_t *f_set(res_t *r) { return set_default_resource(r); }
void f_build(int s, res_t *up)
{
    void *m = gSlot[s];
    if (s <= 2) { if (up) new (m) A(up); else new (m) A(); }
    else if (s == 3) { if (up) new (m) P(nullptr, 0, up); else new (m) P(nullptr, 0); }
    else { if (up) new (m) M(nullptr, 0, up); else new (m) M(nullptr, 0); }
}
void f_drop(int s)
{
    if (s <= 2) at<A>(s)->~A();
    else if (s == 3) at<P>(s)->~P();
    else at<M>(s)->~M();
}
void f_copy(int from, int to)
{
    if (UNIT == 1) new (gSlot[to]) A(*at<A>(from));
    else new (gSlot[to]) A(allocator<double>(*at<A>(from)));
}
void *f_take(int s)
{
    if (s == 1) return at<A>(s)->allocate(1);
    if (s == 2) return at<A>(s)->template allocate_object<long>();
    if (s == 3) return static_cast<res_t *>(at<P>(s))->allocate(8, 8);
    return static_cast<res_t *>(at<M>(s))->allocate(8, 8);
}
void f_give(int s, void *p)
{
    if (s == 1) at<A>(s)->deallocate(static_cast<int *>(p));
    else if (s == 2) at<A>(s)->deallocate_object(static_cast<long *>(p));
    else if (s == 3) static_cast<res_t *>(at<P>(s))->deallocate(p);
}
res_t *f_bound(int s) { return s <= 2 ? at<A>(s)->resource() : nullptr; }
int f_eq(const res_t *a, const res_t *b)
{
    const bool e = *a == *b;
    return e == (*a != *b) ? -1 : e;
}
}  // namespace

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
Unit CAT(unit, UNIT) = {f_sys(), f_nul(), f_get(), f_sys, f_nul, f_get, f_set, f_build, f_drop,
                        f_copy, f_take, f_give, f_bound, f_eq};
