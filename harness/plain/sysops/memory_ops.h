// Stand-in for the external sysops library, doing nothing but the work.
#pragma once
#include <cstddef>
#include <cstdlib>
namespace sysops { namespace memory { namespace ops {
inline int posix_memalign(void **aPtr, std::size_t aAlignment, std::size_t aSize) noexcept { return ::posix_memalign(aPtr, aAlignment, aSize); }
inline void free(void *aPtr) noexcept { ::free(aPtr); }
} } }
