// Redirect the modelled entry points inside libmfem.so to the instrumented
// definitions in this executable (12-byte absolute jump at each entry point).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
struct SxDetour { const char *name; void (*fn)(); };
extern SxDetour sx_detour_table[];
extern int sx_detour_count;
void sx_detour_all()
{
   void *h = dlopen("libmfem.so.4.5.2", RTLD_NOW | RTLD_NOLOAD);
   if (!h) h = dlopen("libmfem.so", RTLD_NOW | RTLD_NOLOAD);
   if (!h) { fprintf(stderr, "sx: libmfem is not loaded: %s\n", dlerror()); exit(3); }
   long pg = sysconf(_SC_PAGESIZE);
   for (int i = 0; i < sx_detour_count; i++)
   {
      unsigned char *p = (unsigned char *)dlsym(h, sx_detour_table[i].name);
      if (!p || (void *)p == (void *)sx_detour_table[i].fn) continue;
      uintptr_t a = (uintptr_t)p & ~(pg - 1), e = ((uintptr_t)p + 12 + pg - 1) & ~(pg - 1);
      if (mprotect((void *)a, e - a, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("sx: mprotect"); exit(3); }
      unsigned char j[12] = {0x48, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xe0};
      uintptr_t t = (uintptr_t)sx_detour_table[i].fn; memcpy(j + 2, &t, 8);
      memcpy(p, j, 12);
      mprotect((void *)a, e - a, PROT_READ | PROT_EXEC);
   }
}
