// Memory from the heap starts with a pattern (NaN for reals, -1 for integers): a value read before it was written does not pass by luck.
#include <cstdlib>
#include <cstring>
#include <new>
static void *get(std::size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, 0xFF, n); return p; }
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
