// Allocations of absurd size throw bad_alloc, as they do without a sanitizer.
#ifndef VERIF_COMMON_LIMIT_NEW_H_
#define VERIF_COMMON_LIMIT_NEW_H_
#include <cstdlib>
#include <new>
namespace vf_detail {
inline void* limited(size_t n) {
  void* p = n > (size_t(256) << 20) ? nullptr : malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
}  // namespace vf_detail
void* operator new(size_t n) { return vf_detail::limited(n); }
void* operator new[](size_t n) { return vf_detail::limited(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif  // VERIF_COMMON_LIMIT_NEW_H_
