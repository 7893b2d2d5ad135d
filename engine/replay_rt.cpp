// Concrete runtime for the replay build: runs one case on the real code (plain
// g++ objects, unmodified libmfem) with the inputs of a values file and logs
// every obligation.   usage: prog --case NAME --values FILE --out FILE
#include "sx.hpp"
#include <cfenv>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
static std::map<std::string, double> vals;
static FILE *of;
static bool g_assumed = true;
static sigjmp_buf g_jb; static volatile sig_atomic_t g_jbset = 0;
static std::string esc(const char *s) { std::string r; for (; *s; s++) r += (*s == '\t' || *s == '\n') ? ' ' : *s; return r; }
extern "C" {
extern uint64_t sx_fill_pattern;
static double rnd(const char *n, double lo, double hi) { unsigned h = 7; for (const char *p = n; *p; p++) h = h * 131 + *p; double u = (h % 10007) / 10007.0; return lo + u * (hi - lo); }
double sx_real(const char *n, double lo, double hi) { auto it = vals.find(n); return it != vals.end() ? it->second : rnd(n, lo, hi); }
int sx_integer(const char *n, int lo, int hi) { auto it = vals.find(n); return it != vals.end() ? (int)it->second : lo; }
int sx_concrete(int v) { return v; }
double sx_conc_real(double v) { return v; }
void sx_assume(bool c) { if (!c) { fprintf(of, "ASSUME\n"); fflush(of); _exit(0); } }
void sx_check(bool c, const char *l) { fprintf(of, "CHK\t%s\t%d\n", esc(l).c_str(), (int)c); fflush(of); }
void sx_eq(double a, double b, const char *l, double tol) { fprintf(of, "EQ\t%s\t%.17g\t%.17g\t%.17g\n", esc(l).c_str(), a, b, tol); }
void sx_nonzero_denominators(bool) {}
double sx_deriv(double, double) { abort(); }
bool sx_is_replay() { return true; }
bool sx_is_symbolic(double) { return false; }
void sx_note(const char *) {}
bool sx_rejects_raw(void (*f)(void *), void *arg)
{
   if (sigsetjmp(g_jb, 1) == 0) { g_jbset = 1; try { f(arg); } catch (...) { g_jbset = 0; return true; } g_jbset = 0; return false; }
   g_jbset = 0; return true;
}
}
namespace sx { std::vector<Case> &cases() { static std::vector<Case> c; return c; } }
static void onsig(int s)
{
   if (s == SIGABRT && g_jbset) siglongjmp(g_jb, 1);
   fprintf(of, "CRASH\tsignal %d\n", s); fflush(of); _exit(0);
}
int main(int argc, char **argv)
{
   std::string cs, vf, outf = "/dev/stdout";
   for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--case") cs = argv[++i]; else if (a == "--values") vf = argv[++i]; else if (a == "--out") outf = argv[++i]; else if (a == "--fill") { double d = atof(argv[++i]); memcpy(&sx_fill_pattern, &d, 8); } }
   of = fopen(outf.c_str(), "w");
   std::ifstream f(vf); std::string line;
   while (std::getline(f, line)) { size_t t = line.find('\t'); if (t != std::string::npos) vals[line.substr(0, t)] = strtod(line.c_str() + t + 1, nullptr); }
   for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, onsig);
   alarm(80);
   for (auto &c : sx::cases()) if (cs == c.name)
   {
      try { c.fn(); } catch (std::exception &e) { fprintf(of, "CRASH\texception %s\n", e.what()); fflush(of); _exit(0); }
      fprintf(of, "DONE\n"); fclose(of); _exit(0);
   }
   fprintf(of, "NOCASE\n"); fclose(of);
   return 2;
}
