// Every heap allocation is filled with a recognisable pattern: the symbolic
// build uses the symbolic value UNINIT (expression 0), the replay build a
// finite double.  A result that depends on memory nobody wrote then differs.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#ifdef SX_SYMBOLIC
static const uint64_t PAT = 0xFFF45EED00000000ull;
#else
extern "C" { uint64_t sx_fill_pattern = 0x4045800000000000ull; /* 43.0 */ }
#define PAT sx_fill_pattern
#endif
static void *get(std::size_t n)
{
   std::size_t m = (n + 15) & ~(std::size_t)15;
   if (m == 0) m = 16;
   uint64_t *p = (uint64_t *)malloc(m);
   if (!p) throw std::bad_alloc();
   for (std::size_t i = 0; i < m / 8; i++) p[i] = PAT;
   return p;
}
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
