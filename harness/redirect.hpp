// Member functions of libmfem.so defined again by a harness: redirect the library's own entry points (virtual tables
// included) to those definitions, in the symbolic and in the replay executable alike.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
struct Redirect
{
   Redirect(std::initializer_list<const char *> names)
   {
      void *h = dlopen("libmfem.so.4.5.2", RTLD_NOW | RTLD_NOLOAD); if (!h) h = dlopen("libmfem.so", RTLD_NOW | RTLD_NOLOAD);
      for (const char *n : names)
      {
         unsigned char *p = h ? (unsigned char *)dlsym(h, n) : nullptr; void *to = dlsym(RTLD_DEFAULT, n); if (!p || !to || p == to) { fprintf(stderr, "redirect: %s\n", n); exit(3); }
         const long pg = sysconf(_SC_PAGESIZE); uintptr_t a = (uintptr_t)p & ~(pg - 1), e = ((uintptr_t)p + 12 + pg - 1) & ~(pg - 1); if (mprotect((void *)a, e - a, PROT_READ | PROT_WRITE | PROT_EXEC)) exit(3);
         unsigned char j[12] = {0x48, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xe0}; uintptr_t t = (uintptr_t)to; memcpy(j + 2, &t, 8); memcpy(p, j, 12); mprotect((void *)a, e - a, PROT_READ | PROT_EXEC);
      }
   }
};
