// Stand-in for the external sysops library: the harness implements both
// functions, so every block obtained from or returned to the system is seen.
#ifndef VF_SYSOPS_MEMORY_OPS_H
#define VF_SYSOPS_MEMORY_OPS_H
#include <cstddef>
namespace sysops
{
namespace memory
{
namespace ops
{
int posix_memalign(void **aPtr, std::size_t aAlignment,
                   std::size_t aSize) noexcept;
void free(void *aPtr) noexcept;
}  // namespace ops
}  // namespace memory
}  // namespace sysops
#endif
