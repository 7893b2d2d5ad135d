// Text round trips of symbolic doubles: iostream insertion prints the token
// SXd<id>x, extraction of that token yields the same symbolic value.
#include <dlfcn.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
bool sxrt_isbox(double d); bool sxrt_ib32(int v); uint32_t sxrt_id(double d); double sxrt_box(uint32_t id); bool sxrt_active();
extern "C" __attribute__((visibility("default"))) std::ostream &sx_ins(std::ostream &o, double d) asm("_ZNSo9_M_insertIdEERSoT_");
std::ostream &sx_ins(std::ostream &o, double d)
{
   typedef std::ostream &(*F)(std::ostream &, double);
   static F real = (F)dlsym(RTLD_NEXT, "_ZNSo9_M_insertIdEERSoT_");
   if (sxrt_isbox(d)) { char b[32]; snprintf(b, 32, "SXd%ux", sxrt_id(d)); return o << b; }
   return real(o, d);
}
extern "C" __attribute__((visibility("default"))) std::istream &sx_ext(std::istream &i, double &d) asm("_ZNSi10_M_extractIdEERSiRT_");
std::istream &sx_ext(std::istream &i, double &d)
{
   typedef std::istream &(*F)(std::istream &, double &);
   static F real = (F)dlsym(RTLD_NEXT, "_ZNSi10_M_extractIdEERSiRT_");
   if (sxrt_active())
   {
      if (i.flags() & std::ios::skipws) i >> std::ws;
      if (i.peek() == 'S')
      {
         std::string t; int c;
         while ((c = i.peek()) != EOF && c != 'x') { t += (char)c; i.get(); }
         if (c == 'x') i.get();
         unsigned id;
         if (sscanf(t.c_str(), "SXd%u", &id) == 1) { d = sxrt_box(id); i.peek(); if (i.eof()) i.clear(std::ios::eofbit); return i; }
         i.setstate(std::ios::failbit); d = 0; return i;
      }
   }
   return real(i, d);
}
extern "C" __attribute__((visibility("default"))) std::ostream &sx_insi(std::ostream &o, int v) asm("_ZNSolsEi");
std::ostream &sx_insi(std::ostream &o, int v)
{
   typedef std::ostream &(*F)(std::ostream &, int);
   static F real = (F)dlsym(RTLD_NEXT, "_ZNSolsEi");
   if (sxrt_active() && sxrt_ib32(v)) { char b[32]; snprintf(b, 32, "SXi%dx", v); return o << b; }
   return real(o, v);
}
extern "C" __attribute__((visibility("default"))) std::istream &sx_exti(std::istream &i, int &v) asm("_ZNSirsERi");
std::istream &sx_exti(std::istream &i, int &v)
{
   typedef std::istream &(*F)(std::istream &, int &);
   static F real = (F)dlsym(RTLD_NEXT, "_ZNSirsERi");
   if (sxrt_active())
   {
      if (i.flags() & std::ios::skipws) i >> std::ws;
      if (i.peek() == 'S')
      {
         std::string t; int c;
         while ((c = i.peek()) != EOF && c != 'x') { t += (char)c; i.get(); }
         if (c == 'x') i.get();
         if (sscanf(t.c_str(), "SXi%d", &v) == 1) { i.peek(); if (i.eof()) i.clear(std::ios::eofbit); return i; }
         i.setstate(std::ios::failbit); v = 0; return i;
      }
   }
   return real(i, v);
}
