// Symbolic runtime: expression store (exact real polynomials over atoms,
// z3 bit-vectors for ints), path exploration and solver queries.
#include "sx.hpp"
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <cfenv>
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <execinfo.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <thread>
#include <atomic>
#include <vector>
#include <ucontext.h>

typedef mpq_class Q;
using std::string; using std::vector;

// ---------------------------------------------------------------- boxing
static const uint64_t BOXHI = 0xFFF45EED00000000ull;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double mkd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool isbox(double d) { return (bits(d) >> 32) == (BOXHI >> 32); }
static inline bool boxed_like(double d) { return (bits(d) >> 52 & 0x7ff) == 0x7ff && ((bits(d) >> 32) & 0xffff) == 0x5EED; }
static inline uint32_t unbox(double d) { return (uint32_t)bits(d); }
static inline double box(uint32_t id) { return mkd(BOXHI | id); }
double sx_uninit_pattern() { return box(0); }

struct FpGuard {     // mask FP traps while the runtime / solver work
   int old;
   FpGuard() { old = fedisableexcept(FE_ALL_EXCEPT); feclearexcept(FE_ALL_EXCEPT); }
   ~FpGuard() { feclearexcept(FE_ALL_EXCEPT); feenableexcept(old & FE_ALL_EXCEPT); }
};

// ---------------------------------------------------------------- state
[[noreturn]] static void finish(const char *status, const string &msg);
static string g_case;
static bool g_active = false;      // inside a case

typedef vector<std::pair<int, Q>> Poly;   // sorted by monomial id; mono 0 == 1
typedef vector<std::pair<int, int>> MonoV; // (atom, exp) sorted by atom
enum AK { VAR, SQRT, INV, FN };
struct Atom { AK k; string name; double lo, hi; uint32_t a1 = 0, a2 = 0; int baseAtom = -1; };
// SQRT: the a2-th root (a2 == 0: square root) of a non-negative expression
static int rootDeg(const Atom &A) { return A.a2 ? (int)A.a2 : 2; }
static vector<Atom> atoms;
static std::map<string, int> atomIx;
static vector<MonoV> monos;
struct MVHash { size_t operator()(const MonoV &v) const { size_t h = 1469598103934665603ull; for (auto &p : v) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ (p.second + 77)) * 1099511628211ull; } return h; } };
static std::unordered_map<MonoV, int, MVHash> monoIx;
static std::deque<Poly> polys;     // expression table: id -> poly
static std::unordered_multimap<size_t, uint32_t> polyIx;

static int internMono(const MonoV &v)
{
   auto it = monoIx.find(v);
   if (it != monoIx.end()) return it->second;
   int id = monos.size(); monos.push_back(v); monoIx[v] = id; return id;
}
static size_t polyHash(const Poly &p)
{
   size_t h = p.size();
   for (auto &t : p) { h = h * 1000003u + t.first; h = h * 1000003u + mpz_get_ui(t.second.get_num_mpz_t()) + 31 * mpz_get_ui(t.second.get_den_mpz_t()) + (sgn(t.second) < 0 ? 7 : 0); }
   return h;
}
static uint32_t internPoly(Poly &&p)
{
   size_t h = polyHash(p);
   auto r = polyIx.equal_range(h);
   for (auto it = r.first; it != r.second; ++it) if (polys[it->second] == p) return it->second;
   uint32_t id = polys.size();
   polys.push_back(std::move(p));
   polyIx.emplace(h, id);
   return id;
}
static double g_q2d(const Q &q) { return q.get_d(); }
// poly -> double (concrete when constant and representable)
static double out(Poly &&p)
{
   if (p.empty()) return 0.0;
   if (p.size() == 1 && p[0].first == 0)
   {
      double d = p[0].second.get_d();
      if (std::isfinite(d) && Q(d) == p[0].second) return d;
   }
   return box(internPoly(std::move(p)));
}
static Poly constPoly(const Q &q) { Poly p; if (sgn(q) != 0) p.push_back({0, q}); return p; }
static int nonfiniteAtom();
static Poly atomPoly(int a) { Poly p; p.push_back({internMono({{a, 1}}), Q(1)}); return p; }
static Poly in(double d)
{
   if (isbox(d)) {
      uint32_t id = unbox(d);
      if (id >= polys.size()) finish("corrupt", "boxed id out of range");
      return polys[id];
   }
   if (boxed_like(d)) finish("corrupt", "a symbolic value was modified by native code (sign bit)");
   if (!std::isfinite(d)) return atomPoly(nonfiniteAtom());
   return constPoly(Q(d));
}
static Poly padd(const Poly &a, const Poly &b, int sb)
{
   Poly r; r.reserve(a.size() + b.size());
   size_t i = 0, j = 0;
   while (i < a.size() || j < b.size())
   {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, sb > 0 ? b[j].second : Q(-b[j].second)}); j++; }
      else { Q q = sb > 0 ? Q(a[i].second + b[j].second) : Q(a[i].second - b[j].second); if (sgn(q) != 0) r.push_back({a[i].first, q}); i++; j++; }
   }
   return r;
}
static Poly pscale(const Poly &a, const Q &q) { Poly r; if (sgn(q) == 0) return r; r = a; for (auto &t : r) t.second *= q; return r; }

// product of two monomials, as a polynomial (sqrt and inverse atoms reduce)
struct MM { int mono; std::shared_ptr<Poly> p; };
static std::unordered_map<uint64_t, MM> mmCache;
static Poly pmul(const Poly &a, const Poly &b);
static Poly ppow(const Poly &a, int e) { Poly r = constPoly(Q(1)); for (int i = 0; i < e; i++) r = pmul(r, a); return r; }
static const MM &mmul(int m1, int m2)
{
   if (m1 > m2) std::swap(m1, m2);
   uint64_t key = ((uint64_t)m1 << 32) | (uint32_t)m2;
   auto it = mmCache.find(key);
   if (it != mmCache.end()) return it->second;
   MonoV a = monos[m1], b = monos[m2], v;
   size_t i = 0, j = 0;
   while (i < a.size() || j < b.size())
   {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) v.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) v.push_back(b[j++]);
      else { v.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
   }
   // cancel inverse atoms against their base atom
   for (auto &t : v)
      if (atoms[t.first].k == INV && atoms[t.first].baseAtom >= 0 && t.second > 0)
         for (auto &s : v)
            if (s.first == atoms[t.first].baseAtom && s.second > 0) { int m = std::min(s.second, t.second); s.second -= m; t.second -= m; }
   v.erase(std::remove_if(v.begin(), v.end(), [](const std::pair<int, int> &t) { return t.second == 0; }), v.end());
   Poly factor; bool red = false;
   for (auto &t : v)
      if (atoms[t.first].k == SQRT && t.second >= rootDeg(atoms[t.first]))
      {
         const int d = rootDeg(atoms[t.first]);
         Poly f = ppow(Poly(polys[atoms[t.first].a1]), t.second / d);
         t.second %= d;
         factor = red ? pmul(factor, f) : f; red = true;
      }
   // cos^2 = 1 - sin^2 (baseAtom of a cosine is the sine of the same argument)
   for (auto &t : v)
      if (atoms[t.first].k == FN && atoms[t.first].baseAtom >= 0 && t.second >= 2)
      {
         Poly one = constPoly(Q(1)), s2; s2.push_back({internMono({{atoms[t.first].baseAtom, 2}}), Q(-1)});
         Poly f = ppow(padd(one, s2, 1), t.second / 2);
         t.second %= 2;
         factor = red ? pmul(factor, f) : f; red = true;
      }
   v.erase(std::remove_if(v.begin(), v.end(), [](const std::pair<int, int> &t) { return t.second == 0; }), v.end());
   MM r; r.mono = internMono(v);
   if (red) { Poly one; one.push_back({r.mono, Q(1)}); r.p = std::make_shared<Poly>(pmul(one, factor)); }
   return mmCache.emplace(key, r).first->second;
}
static Poly pmul(const Poly &a, const Poly &b)
{
   if (a.empty() || b.empty()) return Poly();
   if (a.size() == 1 && a[0].first == 0) return pscale(b, a[0].second);
   if (b.size() == 1 && b[0].first == 0) return pscale(a, b[0].second);
   std::unordered_map<int, Q> acc;
   acc.reserve(a.size() * b.size());
   Q q;
   for (auto &s : a) for (auto &t : b)
   {
      q = s.second * t.second;
      const MM m = mmul(s.first, t.first);
      if (!m.p) acc[m.mono] += q;
      else for (auto &u : *m.p) acc[u.first] += q * u.second;
   }
   Poly r; r.reserve(acc.size());
   for (auto &t : acc) if (sgn(t.second) != 0) r.push_back({t.first, t.second});
   std::sort(r.begin(), r.end(), [](const std::pair<int, Q> &x, const std::pair<int, Q> &y) { return x.first < y.first; });
   return r;
}
static int mkAtom(AK k, const string &key, double lo, double hi, uint32_t a1 = 0, uint32_t a2 = 0, int baseAtom = -1)
{
   auto it = atomIx.find(key);
   if (it != atomIx.end()) return it->second;
   Atom a; a.k = k; a.name = key; a.lo = lo; a.hi = hi; a.a1 = a1; a.a2 = a2; a.baseAtom = baseAtom;
   atoms.push_back(a);
   return atomIx[key] = atoms.size() - 1;
}
static int uninitAtomId = -1;
static int nonfiniteAtom() { return mkAtom(VAR, "NONFINITE", -1e3, 1e3); }
static void initTables()
{
   monos.clear(); monoIx.clear(); internMono({});
   uninitAtomId = mkAtom(VAR, "UNINIT", -1e3, 1e3);
   polys.clear(); polys.push_back(atomPoly(uninitAtomId));   // expression id 0
   polyIx.emplace(polyHash(polys[0]), 0);
}
// Arguments of sqrt / 1/x / sin.. that agree coefficient by coefficient up to rounding (1e-12 of the largest
// coefficient) are the same expression computed in two orders: one atom stands for both.
static std::map<vector<int>, vector<uint32_t>> canonIx;
static uint32_t canonArg(uint32_t id)
{
   const Poly &p = polys[id];
   double mx = 0;
   for (auto &t : p) mx = std::max(mx, std::fabs(t.second.get_d()));
   vector<int> sig;
   for (auto &t : p) if (std::fabs(t.second.get_d()) > 1e-11 * mx) sig.push_back(t.first);
   auto &c = canonIx[sig];
   for (uint32_t o : c)
   {
      if (o == id) return o;
      std::map<int, double> m;
      for (auto &t : p) m[t.first] += t.second.get_d();
      for (auto &t : polys[o]) m[t.first] -= t.second.get_d();
      bool ok = true;
      for (auto &t : m) if (std::fabs(t.second) > 1e-12 * mx) { ok = false; break; }
      if (ok) return o;
   }
   c.push_back(id);
   return id;
}
static bool asConst(const Poly &p, Q &q)
{
   if (p.empty()) { q = 0; return true; }
   if (p.size() == 1 && p[0].first == 0) { q = p[0].second; return true; }
   return false;
}
// 1/p
static Poly pinv(Poly p)
{
   Q c;
   if (asConst(p, c)) return constPoly(1 / c);
   if (p.size() == 1)
   {
      Poly r = constPoly(1 / p[0].second);
      MonoV v = monos[p[0].first];
      for (auto &t : v)
      {
         Poly f;
         if (atoms[t.first].k == INV) f = polys[atoms[t.first].a1];
         else { Poly ap = atomPoly(t.first); uint32_t id = internPoly(Poly(ap)); f = atomPoly(mkAtom(INV, "inv#" + std::to_string(id), 0, 0, id, 0, t.first)); }
         r = pmul(r, ppow(f, t.second));
      }
      return r;
   }
   Q lead = p.back().second;
   Poly q = pscale(p, 1 / lead);
   uint32_t id = canonArg(internPoly(std::move(q)));
   return pscale(atomPoly(mkAtom(INV, "inv#" + std::to_string(id), 0, 0, id)), 1 / lead);
}

// ---------------------------------------------------------------- intervals
static double INF = INFINITY;
static std::map<int, std::pair<double, double>> bndMemo, bndRefine;
static std::pair<double, double> polyBnd(const Poly &p);
static std::pair<double, double> atomBnd(int a)
{
   auto it = bndMemo.find(a);
   if (it != bndMemo.end()) return it->second;
   std::pair<double, double> r;
   Atom &A = atoms[a];
   switch (A.k)
   {
      case VAR: r = {A.lo, A.hi}; break;
      case SQRT: { auto b = polyBnd(polys[A.a1]); double d = 1.0 / rootDeg(A); r = {std::pow(std::max(0.0, b.first), d) * (1 - 1e-12), std::pow(std::max(0.0, b.second), d) * (1 + 1e-12)}; break; }
      case INV: { auto b = polyBnd(polys[A.a1]); if (b.first > 0) r = {1 / b.second, 1 / b.first}; else if (b.second < 0) r = {1 / b.second, 1 / b.first}; else r = {-INF, INF}; break; }
      case FN: r = {A.lo, A.hi}; break;
   }
   auto rf = bndRefine.find(a);
   if (rf != bndRefine.end()) { r.first = std::max(r.first, rf->second.first); r.second = std::min(r.second, rf->second.second); }
   bndMemo[a] = r;
   return r;
}
static std::pair<double, double> imul(std::pair<double, double> a, std::pair<double, double> b)
{
   double v[4] = {a.first * b.first, a.first * b.second, a.second * b.first, a.second * b.second};
   double lo = INF, hi = -INF;
   for (double x : v) { if (std::isnan(x)) x = 0; lo = std::min(lo, x); hi = std::max(hi, x); }
   for (double x : {a.first, a.second, b.first, b.second}) if (std::isinf(x)) { if (!((a.first == 0 && a.second == 0) || (b.first == 0 && b.second == 0))) { /* conservative */ } }
   return {lo, hi};
}
static std::pair<double, double> monoBnd(int m)
{
   std::pair<double, double> r{1, 1};
   for (auto &t : monos[m])
   {
      auto b = atomBnd(t.first);
      std::pair<double, double> e;
      if (t.second % 2 == 0)
      {
         double x = std::pow(std::fabs(b.first), t.second), y = std::pow(std::fabs(b.second), t.second);
         e = (b.first <= 0 && b.second >= 0) ? std::make_pair(0.0, std::max(x, y)) : std::make_pair(std::min(x, y), std::max(x, y));
      }
      else e = {std::pow(b.first, t.second), std::pow(b.second, t.second)};
      r = imul(r, e);
   }
   return r;
}
static std::pair<double, double> polyBnd(const Poly &p)
{
   double lo = 0, hi = 0;
   for (auto &t : p)
   {
      double c = t.second.get_d(); auto b = monoBnd(t.first);
      double x = c * b.first, y = c * b.second; if (std::isnan(x)) x = 0; if (std::isnan(y)) y = 0;
      lo += std::min(x, y); hi += std::max(x, y);
   }
   double s = 1e-12 * (std::fabs(lo) + std::fabs(hi));
   if (std::isinf(s) || std::isnan(s)) return {lo, hi};
   return {lo - s, hi + s};
}
static double polyMag(const Poly &p)
{
   double m = 0;
   for (auto &t : p) { auto b = monoBnd(t.first); double x = std::fabs(t.second.get_d()) * std::max(std::fabs(b.first), std::fabs(b.second)); if (std::isfinite(x)) m += x; }
   return m;
}

// ---------------------------------------------------------------- samples (concrete witnesses of the path)
struct Sample { vector<double> av; std::map<string, double> fixed; bool ok = true; unsigned seed; int style; };
static vector<Sample> samples;
static unsigned g_seed = 1;
static bool g_pin = false;     // single pinned sample decides every branch (encoding validation)
static std::map<string, double> g_pinvals;
static double hash01(unsigned seed, const string &n)
{
   uint64_t h = 1469598103934665603ull ^ (seed * 0x9E3779B97F4A7C15ull);
   for (char c : n) { h ^= (unsigned char)c; h *= 1099511628211ull; }
   h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
   return (double)(h >> 11) / 9007199254740992.0;
}
static double evalPoly(Sample &s, const Poly &p, double *magp = nullptr);
static double evalAtom(Sample &s, int a)
{
   if ((int)s.av.size() <= a) s.av.resize(atoms.size() + 16, mkd(0x7ff8000000000123ull));
   if (bits(s.av[a]) != 0x7ff8000000000123ull) return s.av[a];
   Atom &A = atoms[a];
   double r = 0;
   switch (A.k)
   {
      case VAR:
      {
         auto pv = g_pinvals.find(A.name);
         auto fx = s.fixed.find(A.name);
         if (g_pin && pv != g_pinvals.end()) r = pv->second;
         else if (fx != s.fixed.end()) r = fx->second;
         else
         {
            double u = hash01(s.seed, A.name);
            if (s.style == 1) r = (A.lo <= 0 && A.hi >= 0) ? 0.0 : A.lo;
            else if (s.style == 2) r = u < 0.5 ? A.lo : A.hi;
            else r = A.lo + u * (A.hi - A.lo);
            // keep the value short so that it prints/parses exactly
            if (s.style == 0) { double q = std::ldexp(1.0, 20); double rr = std::floor(r * q) / q; if (rr >= A.lo && rr <= A.hi) r = rr; }
         }
         break;
      }
      case SQRT: r = evalPoly(s, Poly(polys[A.a1])); r = A.a2 ? std::pow(r, 1.0 / rootDeg(atoms[a])) : std::sqrt(r); break;
      case INV: r = 1.0 / evalPoly(s, Poly(polys[A.a1])); break;
      case FN:
      {
         double x = evalPoly(s, Poly(polys[A.a1])), y = A.a2 ? evalPoly(s, Poly(polys[A.a2])) : 0;
         string f = A.name.substr(0, A.name.find('#'));
         if (f == "sin") r = std::sin(x); else if (f == "cos") r = std::cos(x); else if (f == "tan") r = std::tan(x);
         else if (f == "exp") r = std::exp(x); else if (f == "log") r = std::log(x); else if (f == "atan") r = std::atan(x);
         else if (f == "atan2") r = std::atan2(x, y); else if (f == "pow") r = std::pow(x, y); else if (f == "tanh") r = std::tanh(x);
         else if (f == "cosh") r = std::cosh(x); else if (f == "sinh") r = std::sinh(x); else if (f == "asin") r = std::asin(x);
         else if (f == "acos") r = std::acos(x); else if (f == "log10") r = std::log10(x); else if (f == "log2") r = std::log2(x);
         else if (f == "exp2") r = std::exp2(x); else if (f == "erf") r = std::erf(x); else if (f == "cbrt") r = std::cbrt(x);
         break;
      }
   }
   if ((int)s.av.size() <= a) s.av.resize(atoms.size() + 16, mkd(0x7ff8000000000123ull));
   return s.av[a] = r;
}
static double evalMono(Sample &s, int m)
{
   double r = 1;
   MonoV v = monos[m];
   for (auto &t : v) { double x = evalAtom(s, t.first); for (int i = 0; i < t.second; i++) r *= x; }
   return r;
}
static double evalPoly(Sample &s, const Poly &p, double *magp)
{
   long double r = 0, mag = 0;
   for (auto &t : p) { long double x = (long double)t.second.get_d() * evalMono(s, t.first); r += x; mag += fabsl(x); }
   if (magp) *magp = (double)mag;
   return (double)r;
}

// ---------------------------------------------------------------- solver
static z3::context *Z = nullptr;
static bool g_divzero = true;
static long nq = 0, nqSat = 0, nqUnsat = 0, nqUnk = 0; static double tq = 0;
static z3::context &ctx() { if (!Z) Z = new z3::context(); return *Z; }
static vector<z3::expr> *atomZ = nullptr;
struct Lit { Poly p; int op; };   // op: 0: p==0, 1: p!=0, 2: p>0, 3: p>=0, 4: p<0, 5: p<=0
static vector<Lit> pathReal;
static vector<z3::expr> *pathInt = nullptr;
static z3::expr zq(const Q &q) { return ctx().real_val(q.get_str().c_str()); }
static std::map<int, z3::expr> *zatoms = nullptr;
static z3::expr zatom(int a)
{
   if (!zatoms) zatoms = new std::map<int, z3::expr>();
   auto it = zatoms->find(a);
   if (it != zatoms->end()) return it->second;
   z3::expr e = ctx().real_const(("a" + std::to_string(a)).c_str());
   zatoms->emplace(a, e);
   return e;
}
static z3::expr zpoly(const Poly &p)
{
   if (p.empty()) return ctx().real_val(0);
   z3::expr_vector v(ctx());
   for (auto &t : p)
   {
      z3::expr e = zq(t.second);
      if (t.first)
      {
         z3::expr_vector f(ctx());
         if (t.second != 1) f.push_back(e);
         for (auto &u : monos[t.first]) for (int i = 0; i < u.second; i++) f.push_back(zatom(u.first));
         if (f.size() == 1) e = f[0]; else { Z3_ast *a = new Z3_ast[f.size()]; for (unsigned i = 0; i < f.size(); i++) a[i] = f[i]; e = z3::expr(ctx(), Z3_mk_mul(ctx(), f.size(), a)); delete[] a; }
      }
      v.push_back(e);
   }
   return v.size() == 1 ? v[0] : z3::sum(v);
}
static z3::expr zlit(const Lit &l)
{
   z3::expr e = zpoly(l.p), z = ctx().real_val(0);
   switch (l.op) { case 0: return e == z; case 1: return e != z; case 2: return e > z; case 3: return e >= z; case 4: return e < z; default: return e <= z; }
}
static bool isPow(const Atom &A) { return A.k == FN && A.name.compare(0, 4, "pow#") == 0; }
static void collectAtoms(const Poly &p, std::set<int> &s)
{
   for (auto &t : p) { MonoV v = monos[t.first]; for (auto &u : v) if (s.insert(u.first).second) {
      Atom A = atoms[u.first];
      if (A.k == SQRT || A.k == INV) collectAtoms(polys[A.a1], s);
      if (isPow(A)) { collectAtoms(polys[A.a1], s); collectAtoms(polys[A.a2], s); } } }
}
static void addDefs(z3::solver &s, const std::set<int> &as)
{
   for (int a : as)
   {
      Atom &A = atoms[a];
      z3::expr e = zatom(a);
      if (A.k == VAR || A.k == FN)
      {
         if (std::isfinite(A.lo)) s.add(e >= zq(Q(A.lo)));
         if (std::isfinite(A.hi)) s.add(e <= zq(Q(A.hi)));
      }
      if (A.k == SQRT)
      {
         z3::expr b = zpoly(polys[A.a1]), r = e;
         for (int i = 1; i < rootDeg(A); i++) r = r * e;
         s.add(e >= 0); s.add(r == b);
         if (A.a2) { s.add((e >= 1) == (b >= 1)); s.add((e <= 1) == (b <= 1)); }
      }
      if (isPow(A))
      {
         // what is known of a power with an unknown exponent: positive; between 1 and the base for exponents in [0,1]
         z3::expr b = zpoly(polys[A.a1]), x = zpoly(polys[A.a2]);
         s.add(z3::implies(b > 0, e > 0));
         s.add(z3::implies(b >= 1 && x >= 0, e >= 1)); s.add(z3::implies(b >= 1 && x <= 1, e <= b));
         s.add(z3::implies(b > 0 && b <= 1 && x >= 0, e <= 1)); s.add(z3::implies(b > 0 && b <= 1 && x <= 1, e >= b));
         s.add(z3::implies(b > 0 && x == 0, e == 1)); s.add(z3::implies(x == 1, e == b));
      }
      if (A.k == INV) s.add(e * zpoly(polys[A.a1]) == 1);
   }
}
// z3's own timeout is not always honoured: interrupt it from a watchdog thread
static std::atomic<long> g_dl{0};
static long nowms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static long g_qms = 65000;
static void watchdog() { while (true) { usleep(200000); long d = g_dl; if (d && nowms() > d) { Z3_interrupt(ctx()); } } }
struct Watch { Watch() { static bool started = false; if (!started) { started = true; sigset_t all, old; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old); std::thread(watchdog).detach(); pthread_sigmask(SIG_SETMASK, &old, nullptr); } g_dl = nowms() + g_qms; } ~Watch() { g_dl = 0; } };
static z3::check_result run(z3::solver &s)
{
   auto t0 = std::chrono::steady_clock::now();
   z3::check_result r;
   Watch w;
   try { r = s.check(); } catch (z3::exception &e) { r = z3::unknown; }
   tq += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
   nq++; if (r == z3::sat) nqSat++; else if (r == z3::unsat) nqUnsat++; else nqUnk++;
   return r;
}
static bool isLinear(const Poly &p) { for (auto &t : p) { int d = 0; for (auto &u : monos[t.first]) { d += u.second; if (atoms[u.first].k == SQRT || atoms[u.first].k == INV) return false; } if (d > 1) return false; } return true; }
static double zval(z3::model &m, int a)
{
   z3::expr v = m.eval(zatom(a), true);
   if (v.is_numeral()) { return mpq_class(v.numerator().get_decimal_string(0).empty() ? "0" : Z3_get_numeral_string(ctx(), v)).get_d(); }
   if (v.is_algebraic()) { z3::expr lo(ctx(), Z3_get_algebraic_number_lower(ctx(), v, 20)); return mpq_class(Z3_get_numeral_string(ctx(), lo)).get_d(); }
   return 0;
}
// decide path /\ extra over the reals.
static z3::check_result solveReal(const vector<Lit> &extra, std::map<string, double> *model, unsigned ms)
{
   bool lin = true; std::set<int> as;
   for (auto &l : pathReal) { lin = lin && isLinear(l.p); collectAtoms(l.p, as); }
   for (auto &l : extra) { lin = lin && isLinear(l.p); collectAtoms(l.p, as); }
   z3::solver s(ctx(), lin ? "QF_LRA" : "QF_NRA");
   z3::params p(ctx()); p.set("timeout", ms); s.set(p); g_qms = ms + 500;
   addDefs(s, as);
   for (auto &l : pathReal) s.add(zlit(l));
   for (auto &l : extra) s.add(zlit(l));
   z3::check_result r = run(s);
   if (r == z3::sat && model)
   {
      z3::model m = s.get_model();
      for (int a : as) if (atoms[a].k == VAR) (*model)[atoms[a].name] = zval(m, a);
   }
   return r;
}

// ---------------------------------------------------------------- integers
static vector<std::pair<int, z3::expr>> *ints = nullptr;   // width, expr
static int nInt = 0;
struct IntVar { string name; z3::expr e; };
static vector<IntVar> *intVars = nullptr;
static const uint32_t B32 = 0x5A500000u; static const uint64_t B64 = 0xC3A5C3A500000000ull;
static inline bool ib32(uint32_t v) { return nInt && (v & 0xFFF00000u) == B32 && (int)(v & 0xFFFFF) < nInt; }
static inline bool ib64(uint64_t v) { return nInt && (v >> 32) == (B64 >> 32) && (int)(uint32_t)v < nInt; }
static z3::expr iget32(uint32_t v) { return ib32(v) ? (*ints)[v & 0xFFFFF].second : ctx().bv_val((int)v, 32); }
static z3::expr iget64(uint64_t v) { return ib64(v) ? (*ints)[(uint32_t)v].second : ctx().bv_val((int64_t)v, 64); }
static bool constBV(const z3::expr &e, uint64_t &v) { return Z3_get_numeral_uint64(ctx(), e, &v) && e.is_numeral(); }
static uint64_t iput(const z3::expr &e0, int w)
{
   z3::expr e = e0.simplify();
   uint64_t v;
   if (e.is_numeral() && Z3_get_numeral_uint64(ctx(), e, &v)) return v;
   ints->push_back({w, e}); nInt = ints->size();
   if (w == 32 && nInt >= (1 << 20)) finish("limit", "too many integer expressions");
   return w == 32 ? (uint64_t)(B32 | (uint32_t)(nInt - 1)) : (B64 | (uint32_t)(nInt - 1));
}
static z3::check_result solveInt(const vector<z3::expr> &extra, z3::model **mo, unsigned ms = 60000)
{
   z3::solver s(ctx(), "QF_BV");
   z3::params p(ctx()); p.set("timeout", ms); s.set(p);
   for (auto &e : *pathInt) s.add(e);
   for (auto &e : extra) s.add(e);
   z3::check_result r = run(s);
   if (r == z3::sat && mo) *mo = new z3::model(s.get_model());
   return r;
}

// ---------------------------------------------------------------- decisions
struct Dec { int kind; int64_t v; };      // kind 0: branch v in {0,1}; 1: value: v taken; 2: value: v excluded (more follow)
static vector<Dec> prefix, decs;
static size_t decPos = 0;
static int outfd = -1;
static long nOblig = 0, nSymOps = 0;
static std::set<string> fns;
static void emit(const string &s) { string t = s + "\n"; size_t o = 0; while (o < t.size()) { ssize_t n = write(outfd, t.data() + o, t.size() - o); if (n <= 0) break; o += n; } }
static string decStr(const vector<Dec> &d) { std::ostringstream o; for (auto &x : d) o << x.kind << ":" << x.v << " "; return o.str(); }
static void emitAlt(const Dec &alt) { vector<Dec> d = decs; d.push_back(alt); emit("ALT " + decStr(d)); }
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string dstr(double d) { char b[64]; snprintf(b, 64, "%.17g", d); if (!std::isfinite(d)) return "0"; return b; }

static std::map<string, int> g_pinInts;

static string modelJson(const std::map<string, double> &rm)
{
   // reals: from rm, others from defaults; ints from solver
   std::ostringstream o; o << "{";
   bool first = true;
   Sample s; s.seed = g_seed; s.style = 0;
   for (size_t a = 0; a < atoms.size(); a++) if (atoms[a].k == VAR)
   {
      auto it = rm.find(atoms[a].name);
      double v = it != rm.end() ? it->second : evalAtom(s, a);
      o << (first ? "" : ",") << "\"" << jesc(atoms[a].name) << "\":" << dstr(v); first = false;
   }
   if (intVars && intVars->size())
   {
      z3::model *m = nullptr;
      if (solveInt({}, &m) == z3::sat)
         for (auto &iv : *intVars)
         {
            uint64_t v = 0; z3::expr e = m->eval(iv.e, true); Z3_get_numeral_uint64(ctx(), e, &v);
            o << (first ? "" : ",") << "\"" << jesc(iv.name) << "\":" << (int)(uint32_t)v; first = false;
         }
   }
   o << "}";
   return o.str();
}
static bool litHolds(Sample &s, const Lit &l, bool &clear)
{
   double mag; double v = evalPoly(s, l.p, &mag);
   clear = std::fabs(v) > 1e-11 * mag || (l.p.empty());
   if (std::isnan(v)) { clear = false; return false; }
   if (!clear) v = 0;
   switch (l.op) { case 0: return v == 0; case 1: return v != 0; case 2: return v > 0; case 3: return v >= 0; case 4: return v < 0; default: return v <= 0; }
}
static void pushReal(const Lit &l)
{
   pathReal.push_back(l);
   for (auto &s : samples) if (s.ok) { bool clear; bool h = litHolds(s, l, clear); if (!h || (!clear && l.op != 3 && l.op != 5 && l.op != 0)) s.ok = false; }
   // simple bound refinement: c1*atom + c0 (op) 0
   int a = -1; Q c1, c0;
   bool simple = true;
   for (auto &t : l.p)
   {
      if (t.first == 0) c0 = t.second;
      else if (monos[t.first].size() == 1 && monos[t.first][0].second == 1 && a < 0) { a = monos[t.first][0].first; c1 = t.second; }
      else simple = false;
   }
   if (simple && a >= 0 && l.op != 1)
   {
      double b = Q(-c0 / c1).get_d();
      auto &r = bndRefine.emplace(a, std::make_pair(-INF, INF)).first->second;
      bool lower = (l.op == 2 || l.op == 3) == (sgn(c1) > 0);
      if (l.op == 0) { r.first = std::max(r.first, b); r.second = std::min(r.second, b); }
      else if (lower) r.first = std::max(r.first, b - 1e-14 * std::fabs(b)); else r.second = std::min(r.second, b + 1e-14 * std::fabs(b));
      bndMemo.clear();
   }
}
static Lit neg(const Lit &l) { static const int n[] = {1, 0, 5, 4, 3, 2}; Lit r = l; r.op = n[l.op]; return r; }
static bool lastUnknown = false;
// feasibility of path /\ l : 1 yes, 0 no, 2 unknown
static int feasible(const Lit &l, unsigned ms = 10000)
{
   for (auto &s : samples) if (s.ok) { bool clear; if (litHolds(s, l, clear) && (clear || l.op == 0 || l.op == 3 || l.op == 5)) { return 1; } }
   auto b = polyBnd(l.p);
   if (b.first > 0 && (l.op == 0 || l.op == 4 || l.op == 5)) return 0;
   if (b.second < 0 && (l.op == 0 || l.op == 2 || l.op == 3)) return 0;
   std::map<string, double> m;
   z3::check_result r = solveReal({l}, &m, ms);
   if (r == z3::unsat) return 0;
   if (r == z3::sat)
   {
      Sample s; s.seed = g_seed; s.style = 0; s.fixed = m; s.ok = true;
      samples.push_back(s);
      for (auto &pl : pathReal) { bool c; if (!litHolds(samples.back(), pl, c)) samples.back().ok = false; }
      return 1;
   }
   return 2;
}
// few inputs in narrow ranges: bounds on polynomials decide; otherwise roots are better left opaque
static bool narrow(const Poly &p) { std::set<int> as; collectAtoms(p, as); int n = 0; for (int a : as) { if (atoms[a].k != VAR) return false; auto b = atomBnd(a); if (!(b.second - b.first <= 0.05) || ++n > 4) return false; } return true; }
// sqrt(p) against a constant or another square root: compare what is under the roots
static void squareLit(Lit &l)
{
   int s[2] = {-1, -1}, n = 0; Q c[2], k = 0;
   for (auto &t : l.p)
   {
      if (t.first == 0) { k = t.second; continue; }
      MonoV &m = monos[t.first]; if (m.size() != 1 || m[0].second != 1 || n == 2) return;
      const Atom &A = atoms[m[0].first]; if (A.k != SQRT || rootDeg(A) != 2) return;
      s[n] = m[0].first; c[n++] = t.second;
   }
   if (n == 1)
   {
      Q b = -k / c[0]; if (sgn(b) < 0) return;
      Poly q = padd(polys[atoms[s[0]].a1], constPoly(b * b), -1); if (narrow(q)) l.p = pscale(q, Q(sgn(c[0])));
   }
   else if (n == 2 && sgn(k) == 0 && c[0] == -c[1]) { Poly q = padd(polys[atoms[s[0]].a1], polys[atoms[s[1]].a1], -1); if (narrow(q)) l.p = pscale(q, Q(sgn(c[0]))); }
}
static bool branchReal(Poly &&p, int op)
{
   Q c;
   Lit l{std::move(p), op};
   squareLit(l);
   if (asConst(l.p, c))
   {
      int s = sgn(c);
      switch (op) { case 0: return s == 0; case 1: return s != 0; case 2: return s > 0; case 3: return s >= 0; case 4: return s < 0; default: return s <= 0; }
   }
   if (g_pin) { bool clear; return litHolds(samples[0], l, clear); }
   if (decPos < prefix.size())
   {
      Dec d = prefix[decPos++]; decs.push_back(d);
      if (d.kind != 0) finish("nondet", "replayed path diverged (branch expected)");
      pushReal(d.v ? l : neg(l));
      return d.v;
   }
   int ft = feasible(l), ff = feasible(neg(l));
   if (!ft && !ff) finish("infeasible", "");
   bool take;
   if (ft && ff) { take = (ft == 1) || ff == 2; emitAlt({0, take ? 0 : 1}); }
   else take = ft;
   decs.push_back({0, take});
   pushReal(take ? l : neg(l));
   return take;
}
static bool branchInt(const z3::expr &e0)
{
   z3::expr e = e0.simplify();
   if (e.is_true()) return true;
   if (e.is_false()) return false;
   if (decPos < prefix.size())
   {
      Dec d = prefix[decPos++]; decs.push_back(d);
      if (d.kind != 0) finish("nondet", "replayed path diverged (branch expected)");
      pathInt->push_back(d.v ? e : !e);
      return d.v;
   }
   z3::check_result t = solveInt({e}, nullptr), f = solveInt({!e}, nullptr);
   if (t == z3::unsat && f == z3::unsat) finish("infeasible", "");
   bool take;
   if (t != z3::unsat && f != z3::unsat) { take = true; emitAlt({0, 0}); }
   else take = t != z3::unsat;
   decs.push_back({0, take});
   pathInt->push_back(take ? e : !e);
   return take;
}
// enumerate all feasible values of an integer expression, one path per value
static int64_t concInt(const z3::expr &e)
{
   while (true)
   {
      if (decPos < prefix.size())
      {
         Dec d = prefix[decPos++]; decs.push_back(d);
         z3::expr v = e.get_sort().bv_size() == 32 ? ctx().bv_val((int)d.v, 32) : ctx().bv_val((int64_t)d.v, 64);
         if (d.kind == 1) { pathInt->push_back(e == v); return d.v; }
         if (d.kind == 2) { pathInt->push_back(e != v); continue; }
         finish("nondet", "replayed path diverged (value expected)");
      }
      z3::model *m = nullptr;
      z3::check_result r = solveInt({}, &m);
      if (r == z3::unsat) finish("infeasible", "");
      if (r != z3::sat) finish("unknown", "integer concretisation");
      uint64_t u = 0; Z3_get_numeral_uint64(ctx(), m->eval(e, true), &u);
      int64_t v = e.get_sort().bv_size() == 32 ? (int64_t)(int32_t)u : (int64_t)u;
      z3::expr ve = e.get_sort().bv_size() == 32 ? ctx().bv_val((int)v, 32) : ctx().bv_val((int64_t)v, 64);
      delete m;
      if (solveInt({e != ve}, nullptr) != z3::unsat) emitAlt({2, v});
      decs.push_back({1, v});
      pathInt->push_back(e == ve);
      return v;
   }
}
// integer value of floor/trunc of a real expression: one path per feasible value
static int64_t concRealInt(const Poly &p, int mode)   // mode 0 trunc, 1 floor, 2 ceil, 3 round
{
   auto lits = [&](int64_t v, vector<Lit> &L) {
      auto ge = [&](Q c) { L.push_back({padd(p, constPoly(c), -1), 3}); };
      auto gt = [&](Q c) { L.push_back({padd(p, constPoly(c), -1), 2}); };
      auto le = [&](Q c) { L.push_back({padd(p, constPoly(c), -1), 5}); };
      auto lt = [&](Q c) { L.push_back({padd(p, constPoly(c), -1), 4}); };
      Q V((long)v);
      if (mode == 1) { ge(V); lt(V + 1); }
      else if (mode == 2) { gt(V - 1); le(V); }
      else if (mode == 3) { ge(V - Q(1, 2)); lt(V + Q(1, 2)); }
      else { if (v > 0) { ge(V); lt(V + 1); } else if (v < 0) { gt(V - 1); le(V); } else { gt(Q(-1)); lt(Q(1)); } }
   };
   if (g_pin) { double x = evalPoly(samples[0], p); return mode == 1 ? std::floor(x) : mode == 2 ? std::ceil(x) : mode == 3 ? std::floor(x + .5) : (int64_t)x; }
   auto b = polyBnd(p);
   if (!(b.second - b.first < 1e4)) finish("limit", "real-to-integer conversion of an unbounded expression");
   int64_t lo = std::floor(b.first) - 1, hi = std::ceil(b.second) + 1;
   if (decPos < prefix.size())
   {
      Dec d = prefix[decPos++]; decs.push_back(d);
      if (d.kind != 1) finish("nondet", "replayed path diverged (real value expected)");
      vector<Lit> L; lits(d.v, L); for (auto &l : L) pushReal(l);
      return d.v;
   }
   vector<int64_t> vs;
   for (int64_t v = lo; v <= hi; v++) { vector<Lit> L; lits(v, L); std::map<string, double> m; if (solveReal(L, &m, 10000) != z3::unsat) vs.push_back(v); }
   if (vs.empty()) finish("infeasible", "");
   for (size_t i = 1; i < vs.size(); i++) emitAlt({1, vs[i]});
   decs.push_back({1, vs[0]});
   vector<Lit> L; lits(vs[0], L); for (auto &l : L) pushReal(l);
   return vs[0];
}

// ---------------------------------------------------------------- obligations
struct Ob { Poly d; double tol; string label; Poly a, b; };
static vector<Ob> obs;
struct Viol { string label, kind; std::map<string, double> model; double tol, diff; };
static int nViol = 0, nUnknown = 0;

static void reportViol(const string &label, const string &kind, const std::map<string, double> &m, double tol, double diff)
{
   nViol++;
   emit("VIOL {\"label\":\"" + jesc(label) + "\",\"kind\":\"" + kind + "\",\"tol\":" + dstr(tol) + ",\"diff\":" + dstr(diff) + ",\"model\":" + modelJson(m) + "}");
}
// eliminate inverse atoms: returns g with  d == 0  <=>  g == 0 (bases are non-zero), and the factor bound
static Poly clearInv(Poly d, double &fac)
{
   fac = 1;
   for (int round = 0; round < 64; round++)
   {
      int inv = -1, e = 0;
      for (auto &t : d) for (auto &u : monos[t.first]) if (atoms[u.first].k == INV) inv = std::max(inv, u.first);
      if (inv < 0) return d;
      for (auto &t : d) for (auto &u : monos[t.first]) if (u.first == inv) e = std::max(e, u.second);
      vector<Poly> by(e + 1);
      for (auto &t : d)
      {
         MonoV v; int k = 0;
         for (auto &u : monos[t.first]) if (u.first == inv) k = u.second; else v.push_back(u);
         Poly one; one.push_back({internMono(v), t.second});
         by[k] = padd(by[k], one, 1);
      }
      Poly base = polys[atoms[inv].a1], r;
      for (int k = 0; k <= e; k++) r = padd(r, pmul(by[k], ppow(base, e - k)), 1);
      auto b = atomBnd(inv);
      fac *= std::pow(std::max(std::fabs(b.first), std::fabs(b.second)), e);
      d = r;
   }
   return d;
}
// linear relaxation: every monomial is an independent variable within its interval
static bool linUnsat(const vector<std::pair<Poly, double>> &ps)
{
   z3::solver s(ctx(), "QF_LRA");
   z3::params p(ctx()); p.set("timeout", 60000u); s.set(p); g_qms = 61000;
   std::set<int> ms;
   z3::expr_vector ors(ctx());
   for (auto &pr : ps)
   {
      z3::expr_vector v(ctx());
      for (auto &t : pr.first)
      {
         if (t.first) { ms.insert(t.first); v.push_back(zq(t.second) * ctx().real_const(("m" + std::to_string(t.first)).c_str())); }
         else v.push_back(zq(t.second));
      }
      z3::expr e = v.empty() ? ctx().real_val(0) : (v.size() == 1 ? v[0] : z3::sum(v));
      z3::expr tol = zq(Q(pr.second));
      ors.push_back(e > tol); ors.push_back(e < -tol);
   }
   for (int m : ms)
   {
      auto b = monoBnd(m);
      z3::expr e = ctx().real_const(("m" + std::to_string(m)).c_str());
      if (std::isfinite(b.first)) s.add(e >= zq(Q(b.first - 1e-12 * std::fabs(b.first))));
      if (std::isfinite(b.second)) s.add(e <= zq(Q(b.second + 1e-12 * std::fabs(b.second))));
   }
   s.add(z3::mk_or(ors));
   return run(s) == z3::unsat;
}
static bool groundSat(const std::map<string, double> &m, const vector<Lit> &extra)
{
   // solver confirms the witness: path /\ obligation violated /\ inputs = witness
   vector<Lit> L = extra;
   std::set<int> as;
   for (auto &l : pathReal) collectAtoms(l.p, as);
   for (auto &l : extra) collectAtoms(l.p, as);
   for (int a : as) if (atoms[a].k == VAR) { auto it = m.find(atoms[a].name); if (it != m.end()) L.push_back({padd(atomPoly(a), constPoly(Q(it->second)), -1), 0}); }
   return solveReal(L, nullptr, 20000) != z3::unsat;
}
// can interval arithmetic on the current bounds refute the literal?
static bool refuted(const Lit &l)
{
   auto b = polyBnd(l.p); if (std::isnan(b.first) || std::isnan(b.second)) return false;
   if (b.first > 0) return l.op == 0 || l.op == 4 || l.op == 5;
   if (b.second < 0) return l.op == 0 || l.op == 2 || l.op == 3;
   return false;
}
// split the box of the inputs; boxes off the path are dropped, on the others the linear relaxation must refute the violation
static bool splitUnsat(const Poly &g, double tol)
{
   std::set<int> as; collectAtoms(g, as); for (auto &l : pathReal) collectAtoms(l.p, as);
   vector<int> vs; for (int a : as) if (atoms[a].k == VAR) { auto b = atomBnd(a); if (!std::isfinite(b.first) || !std::isfinite(b.second)) return false; vs.push_back(a); }
   if (vs.empty() || vs.size() > 3) return false;
   typedef vector<std::pair<double, double>> Box;
   Box top; for (int v : vs) top.push_back(atomBnd(v));
   auto saved = bndRefine; vector<Box> todo{top}; bool ok = true;
   for (int n = 0; ok && !todo.empty(); n++)
   {
      if (n > 600) { ok = false; break; }
      Box b = todo.back(); todo.pop_back();
      bndRefine = saved; for (size_t i = 0; i < vs.size(); i++) bndRefine[vs[i]] = b[i];
      bndMemo.clear();
      bool off = false; for (auto &l : pathReal) if (refuted(l)) { off = true; break; }
      if (off) continue;
      auto r = polyBnd(g); if (r.first >= -tol && r.second <= tol && linUnsat({{g, tol}})) continue;
      size_t w = 0; double best = -1; for (size_t i = 0; i < vs.size(); i++) { double f = (b[i].second - b[i].first) / std::max(1e-300, top[i].second - top[i].first); if (f > best) { best = f; w = i; } }
      double mid = 0.5 * (b[w].first + b[w].second); if (!(mid > b[w].first && mid < b[w].second)) { ok = false; break; }
      Box c = b; b[w].second = mid; c[w].first = mid; todo.push_back(b); todo.push_back(c);
   }
   bndRefine = saved; bndMemo.clear();
   return ok;
}
// nonlinear decisions of one path share this much time; what is left over is reported as undecided
static double nlLeft = 200;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// cheap stage: linear relaxation, then concrete witnesses; true when decided
static bool decideCheap(Ob &o, Poly &g)
{
   double fac = 1;
   g = o.d;
   if (linUnsat({{g, o.tol}})) return true;
   bool hasInv = false;
   for (auto &t : g) for (auto &u : monos[t.first]) if (atoms[u.first].k == INV) hasInv = true;
   if (hasInv)
   {
      Poly c = clearInv(g, fac);
      if (c.empty()) { linUnsat({{c, o.tol}}); return true; }
      if (std::isfinite(fac) && fac > 0 && linUnsat({{c, o.tol / fac}})) return true;
   }
   // a concrete witness on this path?
   int best = -1; double bd = 0;
   for (size_t i = 0; i < samples.size(); i++) if (samples[i].ok)
   {
      double v = std::fabs(evalPoly(samples[i], g));
      if (std::isnan(v)) v = INF;
      if (v > o.tol && v > bd) { bd = v; best = i; }
   }
   if (best < 0)
      for (int k = 0; k < 2000; k++)
      {
         Sample s; s.seed = g_seed * 7919 + 1000 + k; s.style = k % 3 == 2 ? 2 : 0;
         bool ok = true, c;
         for (auto &l : pathReal) if (!litHolds(s, l, c)) { ok = false; break; }
         if (!ok) continue;
         double v = std::fabs(evalPoly(s, g));
         if (v > o.tol) { samples.push_back(s); best = samples.size() - 1; bd = v; break; }
      }
   if (best >= 0)
   {
      std::map<string, double> m;
      for (size_t a = 0; a < atoms.size(); a++) if (atoms[a].k == VAR) m[atoms[a].name] = evalAtom(samples[best], a);
      double v = evalPoly(samples[best], g);
      bool conf = std::isfinite(v) ? groundSat(m, {{padd(g, constPoly(Q(v > 0 ? o.tol * 0.9 : -o.tol * 0.9)), -1), v > 0 ? 2 : 4}}) : true;
      if (conf) { reportViol(o.label, "eq", m, o.tol, v); return true; }
   }
   return false;
}
static void decideRest(Ob &o, const Poly &g)
{
   struct Clock { double t = now(); ~Clock() { nlLeft -= now() - t; } } clock;
   if (nlLeft <= 0) { nUnknown++; emit("UNKNOWN {\"label\":\"" + jesc(o.label) + "\"}"); return; }
   if (splitUnsat(g, o.tol)) return;
   for (int sg = 0; sg < 2; sg++)
   {
      std::map<string, double> m;
      Lit l{padd(g, constPoly(Q(sg ? -o.tol : o.tol)), -1), sg ? 4 : 2};
      z3::check_result r = solveReal({l}, &m, (unsigned)(1000 * std::min(60., std::max(1., nlLeft))));
      if (r == z3::sat) { reportViol(o.label, "eq", m, o.tol, 0); return; }
      if (r == z3::unknown) { nUnknown++; emit("UNKNOWN {\"label\":\"" + jesc(o.label) + "\"}"); return; }
   }
}
static void decide()
{
   if (g_pin)
   {
      for (auto &o : obs)
         emit("PIN {\"label\":\"" + jesc(o.label) + "\",\"a\":" + dstr(evalPoly(samples[0], o.a)) + ",\"b\":" + dstr(evalPoly(samples[0], o.b)) + ",\"s\":" + dstr(polyMag(o.a) + polyMag(o.b)) + "}");
      return;
   }
   // identical normal forms first, in one query; then small groups (large disjunctions slow the simplex down)
   vector<size_t> zero, rest;
   for (size_t i = 0; i < obs.size(); i++) (obs[i].d.empty() ? zero : rest).push_back(i);
   if (zero.size()) { vector<std::pair<Poly, double>> ps; for (size_t i : zero) ps.push_back({obs[i].d, obs[i].tol}); linUnsat(ps); }
   const size_t chunk = getenv("SX_CHUNK") ? atoi(getenv("SX_CHUNK")) : 1;
   vector<std::pair<size_t, Poly>> hard;
   for (size_t i = 0; i < rest.size(); i += chunk)
   {
      vector<std::pair<Poly, double>> ps;
      for (size_t j = i; j < std::min(rest.size(), i + chunk); j++) ps.push_back({obs[rest[j]].d, obs[rest[j]].tol});
      if (linUnsat(ps)) continue;
      for (size_t j = i; j < std::min(rest.size(), i + chunk); j++) 
      {
         Poly g;
         if (!decideCheap(obs[rest[j]], g)) hard.push_back({rest[j], g});
         if (nViol >= 3) return;
      }
   }
   // a path that already has a counterexample needs no verdict on its remaining hard obligations
   if (nViol && hard.size()) { nUnknown++; emit("UNKNOWN {\"label\":\"" + jesc(obs[hard[0].first].label) + "\"}"); return; }
   for (auto &h : hard) { decideRest(obs[h.first], h.second); if (nViol) return; }
}

static char g_done = 0;
[[noreturn]] static void finish(const char *status, const string &msg)
{
   static bool in = false;
   if (!in)
   {
      in = true;
      fedisableexcept(FE_ALL_EXCEPT);
      string model = "{}";
      string st = status;
      if (st == "crash" || st == "fpe")
      {
         std::map<string, double> m;
         for (auto &s : samples) if (s.ok) { for (size_t a = 0; a < atoms.size(); a++) if (atoms[a].k == VAR) m[atoms[a].name] = evalAtom(s, a); break; }
         model = modelJson(m);
      }
      std::ostringstream o;
      o << "END {\"status\":\"" << status << "\",\"msg\":\"" << jesc(msg) << "\",\"decisions\":\"" << decStr(decs) << "\",\"obligations\":" << nOblig
        << ",\"queries\":" << nq << ",\"sat\":" << nqSat << ",\"unsat\":" << nqUnsat << ",\"unknown\":" << nqUnk << ",\"solver_s\":" << tq
        << ",\"symops\":" << nSymOps << ",\"exprs\":" << polys.size() << ",\"unknown_obs\":" << nUnknown << ",\"viol\":" << nViol << ",\"model\":" << model << ",\"fns\":[";
      bool f = true; for (auto &s : fns) { o << (f ? "" : ",") << "\"" << s << "\""; f = false; }
      o << "]}";
      emit(o.str());
   }
   _exit(0);
}
static sigjmp_buf g_jb; static volatile sig_atomic_t g_jbset = 0;
static void onsig(int sig, siginfo_t *si, void *uc)
{
   if (sig == SIGABRT && g_jbset) siglongjmp(g_jb, 1);
   fedisableexcept(FE_ALL_EXCEPT);
   alarm(60);
   void *bt[40]; int n = backtrace(bt, 40);
   char **sy = backtrace_symbols(bt, n);
   string m = sig == SIGFPE ? "native code operated on a symbolic value (or invalid FP operation)" : "signal " + std::to_string(sig);
   if (sig == SIGFPE && si->si_code == FPE_INTDIV) { m = "integer division by zero"; sig = SIGSEGV; }
   for (int i = 2; i < n && i < 14; i++) m += string(" | ") + (sy ? sy[i] : "?");
   finish(sig == SIGFPE ? "fpe" : sig == SIGALRM ? "timeout" : "crash", m);
}

// ---------------------------------------------------------------- instrumented operations
template <class S, class U> static bool icc(int p, S a, S b) { U x = a, y = b; switch (p) { case 32: return a == b; case 33: return a != b; case 34: return x > y; case 35: return x >= y; case 36: return x < y; case 37: return x <= y; case 38: return a > b; case 39: return a >= b; case 40: return a < b; default: return a <= b; } }
#define G FpGuard _g; nSymOps++
extern "C" {
void sx_enter(const char *name, int *flag) { if (!*flag) { *flag = 1; if (g_active) fns.insert(name); else *flag = 0; } }
double sx_fadd(double a, double b) { if (!isbox(a) && !isbox(b)) return a + b; G; if (!isbox(a) && a == 0) return b; if (!isbox(b) && b == 0) return a; return out(padd(in(a), in(b), 1)); }
double sx_fsub(double a, double b) { if (!isbox(a) && !isbox(b)) return a - b; G; if (!isbox(b) && b == 0) return a; return out(padd(in(a), in(b), -1)); }
double sx_fmul(double a, double b) { if (!isbox(a) && !isbox(b)) return a * b; G; if (!isbox(a) && a == 1) return b; if (!isbox(b) && b == 1) return a; return out(pmul(in(a), in(b))); }
double sx_fneg(double a) { if (!isbox(a)) return -a; G; return out(pscale(in(a), Q(-1))); }
double sx_fdiv(double a, double b)
{
   if (!isbox(a) && !isbox(b)) return a / b;
   G;
   if (!isbox(b)) { if (b == 0) return out(atomPoly(nonfiniteAtom())); if (!std::isfinite(b)) return std::isinf(b) ? 0.0 : out(atomPoly(nonfiniteAtom())); return out(pscale(in(a), 1 / Q(b))); }
   Poly p = in(b);
   if (g_divzero)
   {
      auto bd = polyBnd(p);
      if (bd.first <= 0 && bd.second >= 0)
      {
         if (branchReal(Poly(p), 0)) return out(atomPoly(nonfiniteAtom()));
      }
   }
   return out(pmul(in(a), pinv(p)));
}
double sx_fma(double a, double b, double c) { if (!isbox(a) && !isbox(b) && !isbox(c)) return std::fma(a, b, c); return sx_fadd(sx_fmul(a, b), c); }
bool sx_fcmp(int pred, double a, double b)
{
   // LLVM predicates: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
   if (!isbox(a) && !isbox(b))
   {
      bool un = (a != a) || (b != b);
      bool e = !un && a == b, g = !un && a > b, l = !un && a < b;
      switch (pred) { case 0: return false; case 15: return true; case 7: return !un; case 8: return un; default: break; }
      bool r = false;
      if (pred & 1) r |= e; if (pred & 2) r |= g; if (pred & 4) r |= l; if (pred & 8) r |= un;
      return r;
   }
   G;
   if (pred == 0 || pred == 8) return false;
   if (pred == 15 || pred == 7) return true;
   if (!isbox(a) && std::isinf(a)) return a > 0 ? (pred & 2) : (pred & 4);
   if (!isbox(b) && std::isinf(b)) return b > 0 ? (pred & 4) : (pred & 2);
   Poly d = padd(in(a), in(b), -1);
   static const int op[8] = {0, 0, 2, 3, 4, 5, 1, 0};
   return branchReal(std::move(d), op[pred & 7]);
}
bool sx_fpclass(double a, int mask) { if (!isbox(a)) { bool r = false; int c = std::fpclassify(a); bool s = std::signbit(a);
      if ((mask & 3) && c == FP_NAN) r = true; if ((mask & 4) && c == FP_INFINITE && s) r = true; if ((mask & 8) && c == FP_NORMAL && s) r = true;
      if ((mask & 16) && c == FP_SUBNORMAL && s) r = true; if ((mask & 32) && c == FP_ZERO && s) r = true; if ((mask & 64) && c == FP_ZERO && !s) r = true;
      if ((mask & 128) && c == FP_SUBNORMAL && !s) r = true; if ((mask & 256) && c == FP_NORMAL && !s) r = true; if ((mask & 512) && c == FP_INFINITE && !s) r = true; return r; }
   G; // finite symbolic real
   bool neg = mask & (8 | 16), pos = mask & (128 | 256), zero = mask & (32 | 64);
   if (neg && pos && zero) return true; if (!neg && !pos && !zero) return false;
   Poly p = in(a); if (branchReal(Poly(p), 0)) return zero; if (branchReal(std::move(p), 2)) return pos; return neg; }
// what a printf of a symbolic value shows: output text is not observed by any check
double sx_show(double a) { return isbox(a) ? 0.0 : a; }
double sx_needconc(double a) { if (!isbox(a)) return a; G; finish("unsupported", "symbolic value converted to float"); }
double sx_fabs(double a) { if (!isbox(a)) return std::fabs(a); G; Poly p = in(a); auto b = polyBnd(p); if (b.first >= 0) return a;
   // |sqrt-like even| : branch on the sign
   if (branchReal(Poly(p), 3)) return a; return out(pscale(p, Q(-1))); }
double sx_sqrt(double a)
{
   if (!isbox(a)) return std::sqrt(a);
   G;
   Poly p = in(a);
   uint32_t id = canonArg(internPoly(std::move(p)));
   return out(atomPoly(mkAtom(SQRT, "sqrt#" + std::to_string(id), 0, INF, id)));
}
static double fn1(const char *n, double a, double lo, double hi) { FpGuard g; nSymOps++; uint32_t id = canonArg(internPoly(in(a))); return out(atomPoly(mkAtom(FN, string(n) + "#" + std::to_string(id), lo, hi, id))); }
static double fn2(const char *n, double a, double b, double lo, double hi) { FpGuard g; nSymOps++; uint32_t i = canonArg(internPoly(in(a))), j = canonArg(internPoly(in(b))); return out(atomPoly(mkAtom(FN, string(n) + "#" + std::to_string(i) + "," + std::to_string(j), lo, hi, i, j))); }
// arguments up to sign: the last significant coefficient is positive
static bool posArg(double a, double &b) { FpGuard g; Poly p = in(a); double mx = 0; int sg = 1; for (auto &t : p) mx = std::max(mx, std::fabs(t.second.get_d())); for (auto &t : p) if (std::fabs(t.second.get_d()) > 1e-11 * mx) sg = sgn(t.second); if (sg < 0) { b = out(pscale(p, Q(-1))); return false; } b = a; return true; }
double sx_sin(double a) { if (!isbox(a)) return std::sin(a); double b; bool pos = posArg(a, b); double r = fn1("sin", b, -1, 1); return pos ? r : sx_fneg(r); }
double sx_cos(double a)
{
   if (!isbox(a)) return std::cos(a);
   double b; posArg(a, b); fn1("sin", b, -1, 1);
   FpGuard g; nSymOps++; string id = std::to_string(canonArg(internPoly(in(b)))); uint32_t ix = canonArg(internPoly(in(b)));
   return out(atomPoly(mkAtom(FN, "cos#" + id, -1, 1, ix, 0, mkAtom(FN, "sin#" + id, -1, 1, ix))));
}
double sx_tan(double a) { return isbox(a) ? fn1("tan", a, -INF, INF) : std::tan(a); }
// log of a product of positive factors is the sum of their logs
double sx_log(double a)
{
   if (!isbox(a)) return std::log(a);
   {
      FpGuard g;
      Poly p = in(a), r;
      if (p.size() == 1 && p[0].second == 1 && p[0].first)
      {
         MonoV v = monos[p[0].first];
         bool pos = true, one = v.size() == 1 && v[0].second == 1 && atoms[v[0].first].k != INV;
         for (auto &t : v) pos = pos && atomBnd(t.first).first > 0;
         if (pos && !one)
         {
            for (auto &t : v)
            {
               bool inv = atoms[t.first].k == INV;
               r = padd(r, pscale(in(sx_log(out(inv ? Poly(polys[atoms[t.first].a1]) : atomPoly(t.first)))), Q(inv ? -t.second : t.second)), 1);
            }
            return out(std::move(r));
         }
      }
   }
   return fn1("log", a, -INF, INF);
}
// exp(sum q_i log x_i) is a root of a product of powers (rational q_i with a denominator dividing 12) or a power
// with a common symbolic exponent; other summands stay inside exp
static bool twelfth(const Q &q, long &n) { double d = 12 * q.get_d(); n = std::lround(d); return std::fabs(d - n) < 1e-9 && std::labs(n) <= 120; }
static Poly expLog(const Poly &p)
{
   std::map<vector<std::pair<int, int>>, vector<std::pair<Q, uint32_t>>> by;   // exponent monomial -> (coefficient, argument of log)
   Poly rest;
   for (auto &t : p)
   {
      MonoV v = monos[t.first], e; int lg = -1, cnt = 0;
      for (auto &u : v) if (atoms[u.first].k == FN && atoms[u.first].name.compare(0, 4, "log#") == 0) { lg = u.first; cnt += u.second; } else e.push_back(u);
      long n;
      if (cnt == 1 && (!e.empty() || twelfth(t.second, n))) by[e].push_back({t.second, atoms[lg].a1});
      else rest.push_back(t);
   }
   Poly r = constPoly(Q(1));
   for (auto &b : by)
   {
      if (b.first.empty())
      {
         long g = 0;
         for (auto &c : b.second) { long n; twelfth(c.first, n); g = std::__gcd(g, std::labs(n)); }
         if (!g) continue;
         // (prod x_i^(n_i/g))^(g/12)
         Poly base = constPoly(Q(1));
         for (auto &c : b.second) { long n; twelfth(c.first, n); n /= g; Poly x = polys[c.second]; base = pmul(base, n >= 0 ? ppow(x, n) : ppow(pinv(x), -n)); }
         long whole = g / 12, part = g % 12;
         r = pmul(r, ppow(base, whole));
         if (part)
         {
            Q cq;
            if (asConst(base, cq)) { r = pscale(r, Q(std::pow(cq.get_d(), part / 12.0))); continue; }
            uint32_t id = canonArg(internPoly(Poly(base)));
            r = pmul(r, ppow(atomPoly(mkAtom(SQRT, "root12#" + std::to_string(id), 0, INF, id, 12)), part));
         }
      }
      else
      {
         Q c = abs(b.second[0].first); Poly base = constPoly(Q(1)); bool ok = true;
         for (auto &x : b.second) { Q n = x.first / c; double d = n.get_d(); ok = ok && std::fabs(d - std::lround(d)) < 1e-9 && std::fabs(d) <= 8; }
         if (!ok) { for (auto &x : b.second) { Poly t; MonoV m = b.first; t.push_back({internMono(m), x.first}); rest = padd(rest, pmul(t, in(sx_log(out(Poly(polys[x.second]))))), 1); } continue; }
         for (auto &x : b.second) { long n = std::lround(Q(x.first / c).get_d()); Poly y = polys[x.second]; base = pmul(base, n >= 0 ? ppow(y, n) : ppow(pinv(y), -n)); }
         Poly e; e.push_back({internMono(b.first), c});
         uint32_t i = canonArg(internPoly(Poly(base))), j = canonArg(internPoly(Poly(e)));
         r = pmul(r, atomPoly(mkAtom(FN, "pow#" + std::to_string(i) + "," + std::to_string(j), -INF, INF, i, j)));
      }
   }
   Q c;
   if (asConst(rest, c)) { if (sgn(c)) r = pscale(r, Q(std::exp(c.get_d()))); }
   else { uint32_t id = canonArg(internPoly(std::move(rest))); r = pmul(r, atomPoly(mkAtom(FN, "exp#" + std::to_string(id), 0, INF, id))); }
   return r;
}
double sx_exp(double a)
{
   if (!isbox(a)) return std::exp(a);
   G;
   Poly p = in(a);
   for (auto &t : p) for (auto &u : monos[t.first]) if (atoms[u.first].k == FN && atoms[u.first].name.compare(0, 4, "log#") == 0) return out(expLog(p));
   return fn1("exp", a, 0, INF);
}
double sx_log10(double a) { return isbox(a) ? fn1("log10", a, -INF, INF) : std::log10(a); }
double sx_log2(double a) { return isbox(a) ? fn1("log2", a, -INF, INF) : std::log2(a); }
double sx_exp2(double a) { return isbox(a) ? fn1("exp2", a, 0, INF) : std::exp2(a); }
double sx_atan(double a) { return isbox(a) ? fn1("atan", a, -1.6, 1.6) : std::atan(a); }
double sx_tanh(double a) { return isbox(a) ? fn1("tanh", a, -1, 1) : std::tanh(a); }
double sx_cosh(double a) { return isbox(a) ? fn1("cosh", a, 1, INF) : std::cosh(a); }
double sx_sinh(double a) { return isbox(a) ? fn1("sinh", a, -INF, INF) : std::sinh(a); }
double sx_asin(double a) { return isbox(a) ? fn1("asin", a, -1.6, 1.6) : std::asin(a); }
double sx_acos(double a) { return isbox(a) ? fn1("acos", a, 0, 3.2) : std::acos(a); }
double sx_erf(double a) { return isbox(a) ? fn1("erf", a, -1, 1) : std::erf(a); }
double sx_cbrt(double a) { return isbox(a) ? fn1("cbrt", a, -INF, INF) : std::cbrt(a); }
double sx_atan2(double a, double b) { return isbox(a) || isbox(b) ? fn2("atan2", a, b, -3.15, 3.15) : std::atan2(a, b); }
double sx_powi(double a, int n);
double sx_pow(double a, double b)
{
   if (!isbox(a) && !isbox(b)) return std::pow(a, b);
   G;
   if (!isbox(b) && b == std::floor(b) && std::fabs(b) <= 8) return sx_powi(a, (int)b);
   if (!isbox(b) && b == 0.5) return sx_sqrt(a);
   if (isbox(a)) { Poly p = in(a); auto bd = polyBnd(p); if (bd.first > 0) return sx_exp(sx_fmul(b, sx_log(a))); }
   return fn2("pow", a, b, -INF, INF);
}
double sx_powi(double a, int n)
{
   if (!isbox(a)) return std::pow(a, n);
   if (n < 0) return sx_fdiv(1.0, sx_powi(a, -n));
   double r = 1.0; for (int i = 0; i < n; i++) r = sx_fmul(r, a); return r;
}
double sx_hypot(double a, double b) { if (!isbox(a) && !isbox(b)) return std::hypot(a, b); return sx_sqrt(sx_fadd(sx_fmul(a, a), sx_fmul(b, b))); }
double sx_fmin(double a, double b) { if (!isbox(a) && !isbox(b)) return std::fmin(a, b); return sx_fcmp(5, a, b) ? a : b; }
double sx_fmax(double a, double b) { if (!isbox(a) && !isbox(b)) return std::fmax(a, b); return sx_fcmp(3, a, b) ? a : b; }
double sx_copysign(double a, double b) { if (!isbox(a) && !isbox(b)) return std::copysign(a, b); double m = sx_fabs(a); return sx_fcmp(3, b, 0.0) ? m : sx_fneg(m); }
int64_t sx_fptosi(double a) { if (!isbox(a)) return (int64_t)a; G; return concRealInt(in(a), 0); }
double sx_floor(double a) { if (!isbox(a)) return std::floor(a); G; return (double)concRealInt(in(a), 1); }
double sx_ceil(double a) { if (!isbox(a)) return std::ceil(a); G; return (double)concRealInt(in(a), 2); }
double sx_ftrunc(double a) { if (!isbox(a)) return std::trunc(a); G; return (double)concRealInt(in(a), 0); }
double sx_round(double a) { if (!isbox(a)) return std::round(a); G; return (double)concRealInt(in(a), 3); }
double sx_rint(double a) { if (!isbox(a)) return std::rint(a); G; return (double)concRealInt(in(a), 3); }
double sx_frem(double a, double b) { if (!isbox(a) && !isbox(b)) return std::fmod(a, b); double q = sx_ftrunc(sx_fdiv(a, b)); return sx_fsub(a, sx_fmul(q, b)); }

// integers
static z3::expr ibin(int op, const z3::expr &x, const z3::expr &y)
{
   switch (op)
   {
      case 0: return x + y; case 1: return x - y; case 2: return x * y;
      case 3: return x / y; case 4: return z3::srem(x, y); case 5: return z3::udiv(x, y); case 6: return z3::urem(x, y);
      case 7: return z3::shl(x, y); case 8: return z3::lshr(x, y); case 9: return z3::ashr(x, y);
      case 10: return x & y; case 11: return x | y; default: return x ^ y;
   }
}
int32_t sx_ibin32(int op, int32_t a, int32_t b)
{
   if (!ib32(a) && !ib32(b))
   {
      uint32_t x = a, y = b;
      switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return a / b; case 4: return a % b; case 5: return x / y; case 6: return x % y;
         case 7: return x << (y & 31); case 8: return x >> (y & 31); case 9: return a >> (y & 31); case 10: return x & y; case 11: return x | y; default: return x ^ y; }
   }
   G;
   z3::expr x = iget32(a), y = iget32(b);
   if (op >= 3 && op <= 6) { if (branchInt(y == ctx().bv_val(0, 32))) finish("crash", "integer division by zero"); }
   return (int32_t)iput(ibin(op, x, y), 32);
}
int64_t sx_ibin64(int op, int64_t a, int64_t b)
{
   if (!ib64(a) && !ib64(b))
   {
      uint64_t x = a, y = b;
      switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return a / b; case 4: return a % b; case 5: return x / y; case 6: return x % y;
         case 7: return x << (y & 63); case 8: return x >> (y & 63); case 9: return a >> (y & 63); case 10: return x & y; case 11: return x | y; default: return x ^ y; }
   }
   G;
   z3::expr x = iget64(a), y = iget64(b);
   if (op >= 3 && op <= 6) { if (branchInt(y == ctx().bv_val((int64_t)0, 64))) finish("crash", "integer division by zero"); }
   return (int64_t)iput(ibin(op, x, y), 64);
}
static z3::expr icmp(int p, const z3::expr &x, const z3::expr &y)
{
   // LLVM: 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
   switch (p) { case 32: return x == y; case 33: return x != y; case 34: return z3::ugt(x, y); case 35: return z3::uge(x, y); case 36: return z3::ult(x, y); case 37: return z3::ule(x, y);
      case 38: return x > y; case 39: return x >= y; case 40: return x < y; default: return x <= y; }
}
bool sx_icmp32(int p, int32_t a, int32_t b) { if (!ib32(a) && !ib32(b)) return icc<int32_t, uint32_t>(p, a, b); G; return branchInt(icmp(p, iget32(a), iget32(b))); }
bool sx_icmp64(int p, int64_t a, int64_t b) { if (!ib64(a) && !ib64(b)) return icc<int64_t, uint64_t>(p, a, b); G; return branchInt(icmp(p, iget64(a), iget64(b))); }
int32_t sx_conc32(int32_t a) { if (!ib32(a)) return a; G; return (int32_t)concInt(iget32(a)); }
int64_t sx_conc64(int64_t a) { if (!ib64(a)) return a; G; return concInt(iget64(a)); }
int64_t sx_sext(int32_t a) { if (!ib32(a)) return a; G; return iput(z3::sext(iget32(a), 32), 64); }
int64_t sx_zext(int32_t a) { if (!ib32(a)) return (uint32_t)a; G; return iput(z3::zext(iget32(a), 32), 64); }
int32_t sx_trunc(int64_t a) { if (!ib64(a)) return (int32_t)a; G; return (int32_t)iput(iget64(a).extract(31, 0), 32); }
int32_t sx_iminmax32(int op, int32_t a, int32_t b) { static const int p[] = {38, 40, 34, 36}; return sx_icmp32(p[op], a, b) ? a : b; }
int64_t sx_iminmax64(int op, int64_t a, int64_t b) { static const int p[] = {38, 40, 34, 36}; return sx_icmp64(p[op], a, b) ? a : b; }
int32_t sx_iabs32(int32_t a) { return sx_icmp32(40, a, 0) ? sx_ibin32(1, 0, a) : a; }
int64_t sx_iabs64(int64_t a) { return sx_icmp64(40, a, 0) ? sx_ibin64(1, 0, a) : a; }

// ---------------------------------------------------------------- harness API
double sx_real(const char *n, double lo, double hi)
{
   FpGuard g;
   int a = mkAtom(VAR, n, lo, hi);
   return out(atomPoly(a));
}
int sx_integer(const char *n, int lo, int hi)
{
   FpGuard g;
   if (g_pin)
   {
      auto it = g_pinvals.find(n);
      if (it != g_pinvals.end()) return (int)it->second;
      int v = lo + (int)(hash01(g_seed, n) * ((double)hi - lo + 1)); if (v > hi) v = hi; if (v < lo) v = lo;
      emit("PININT {\"name\":\"" + jesc(n) + "\",\"v\":" + std::to_string(v) + "}");
      return v;
   }
   for (auto &iv : *intVars) if (iv.name == n) return (int)iput(iv.e, 32);
   z3::expr e = ctx().bv_const(n, 32);
   intVars->push_back({n, e});
   pathInt->push_back(e >= lo && e <= hi);
   if (lo == hi) return lo;
   return (int)iput(e, 32);
}
int sx_concrete(int v) { return sx_conc32(v); }
double sx_conc_real(double v) { return v; }
void sx_nonzero_denominators(bool on) { g_divzero = !on; }
void sx_assume(bool c) { if (!c) { FpGuard g; finish("assume", ""); } }
void sx_check(bool c, const char *label)
{
   FpGuard g;
   nOblig++;
   if (g_pin) { emit(string("PINC {\"label\":\"") + jesc(label) + "\",\"c\":" + (c ? "1" : "0") + "}"); return; }
   if (c) return;
   // this path is feasible (solver or witness): confirm and report
   std::map<string, double> m; bool have = false;
   for (auto &s : samples) if (s.ok) { for (size_t a = 0; a < atoms.size(); a++) if (atoms[a].k == VAR) m[atoms[a].name] = evalAtom(s, a); have = true; break; }
   if (!pathReal.empty())
   {
      std::map<string, double> m2;
      z3::check_result r = solveReal({}, &m2, 60000);
      if (r == z3::unsat) finish("infeasible", "");
      if (r == z3::unknown && !have) { nUnknown++; emit(string("UNKNOWN {\"label\":\"") + jesc(label) + "\"}"); return; }
      if (!have) m = m2;
   }
   z3::model *im = nullptr;
   if (!pathInt->empty() && solveInt({}, &im) == z3::unsat) finish("infeasible", "");
   reportViol(label, "check", m, 0, 0);
   if (nViol >= 3) finish("done", "");
}
void sx_eq(double a, double b, const char *label, double tol)
{
   FpGuard g;
   nOblig++;
   Ob o; o.a = in(a); o.b = in(b); o.d = padd(o.a, o.b, -1);
   o.tol = std::fabs(tol) * (1.0 + polyMag(o.a) + polyMag(o.b));
   if (!std::isfinite(o.tol)) o.tol = std::fabs(tol);
   o.label = label;
   obs.push_back(std::move(o));
}
static Poly pderiv(const Poly &p, int v);
static Poly aderiv(int a, int v)
{
   Atom A = atoms[a];
   if (a == v) return constPoly(Q(1));
   switch (A.k)
   {
      case VAR: return Poly();
      case SQRT: { Poly d = pderiv(Poly(polys[A.a1]), v); if (d.empty()) return d; int n = rootDeg(A); return pmul(pscale(ppow(pinv(atomPoly(a)), n - 1), Q(1, n)), d); }
      case INV: { Poly d = pderiv(Poly(polys[A.a1]), v); if (d.empty()) return d; return pmul(pscale(ppow(atomPoly(a), 2), Q(-1)), d); }
      case FN:
      {
         Poly d = pderiv(Poly(polys[A.a1]), v); if (d.empty()) return d;
         string f = A.name.substr(0, A.name.find('#')); double x = box(A.a1);
         if (f == "sin") return pmul(in(sx_cos(x)), d);
         if (f == "cos") return pscale(pmul(in(sx_sin(x)), d), Q(-1));
         if (f == "exp") return pmul(atomPoly(a), d);
         finish("unsupported", "derivative of " + f);
      }
   }
   return Poly();
}
static Poly pderiv(const Poly &p, int v)
{
   Poly r;
   Poly pc = p;
   for (auto &t : pc)
   {
      MonoV mv = monos[t.first];
      for (size_t k = 0; k < mv.size(); k++)
      {
         Poly d = aderiv(mv[k].first, v);
         if (d.empty()) continue;
         MonoV rest = mv; rest[k].second--; if (!rest[k].second) rest.erase(rest.begin() + k);
         Poly c; c.push_back({internMono(rest), t.second * mv[k].second});
         r = padd(r, pmul(c, d), 1);
      }
   }
   return r;
}
double sx_deriv(double f, double var)
{
   FpGuard g;
   Poly v = in(var);
   if (v.size() != 1 || v[0].second != 1 || monos[v[0].first].size() != 1 || atoms[monos[v[0].first][0].first].k != VAR) finish("error", "sx_deriv: not a variable");
   return out(pderiv(in(f), monos[v[0].first][0].first));
}
bool sx_is_replay() { return false; }
bool sx_rejects_raw(void (*f)(void *), void *arg)
{
   if (sigsetjmp(g_jb, 1) == 0) { g_jbset = 1; try { f(arg); } catch (...) { g_jbset = 0; return true; } g_jbset = 0; return false; }
   g_jbset = 0; feenableexcept(FE_INVALID); return true;
}
bool sx_is_symbolic(double v) { return isbox(v); }
void sx_note(const char *m) { emit(string("NOTE ") + m); }
} // extern C

namespace sx { vector<Case> &cases() { static vector<Case> c; return c; } }

// text round trips of symbolic doubles (yaml-cpp, iostreams): token "@SXd<id>@"
// implemented in stream_models.cpp through these helpers
bool sxrt_isbox(double d) { return isbox(d); }
uint32_t sxrt_id(double d) { return unbox(d); }
double sxrt_box(uint32_t id) { return box(id); }
bool sxrt_ib32(int v) { return ib32(v); }
bool sxrt_active() { return g_active; }

void sx_detour_all();
static void childMain(const sx::Case &c, int fd)
{
   outfd = fd;
   g_case = c.name;
   { char d[64]; snprintf(d, 64, "p%d", (int)getpid()); mkdir(d, 0700); if (chdir(d)) {} }
   initTables();
   ints = new vector<std::pair<int, z3::expr>>(); intVars = new vector<IntVar>(); pathInt = new vector<z3::expr>();
   ints->reserve(1 << 16);
   static char altstack[1 << 18];
   stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
   struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
   for (int s : {SIGFPE, SIGSEGV, SIGABRT, SIGBUS, SIGALRM, SIGILL}) sigaction(s, &sa, nullptr);
   if (!g_pin)
      for (int i = 0; i < 48; i++) { Sample s; s.seed = g_seed + i; s.style = i == 1 ? 1 : (i % 4 == 3 ? 2 : 0); samples.push_back(s); }
   else { Sample s; s.seed = g_seed; s.style = 0; samples.push_back(s); }
   const char *tmo = getenv("SX_PATH_TIMEOUT");
   alarm(tmo ? atoi(tmo) : 400);
   feclearexcept(FE_ALL_EXCEPT);
   feenableexcept(FE_INVALID);
   g_active = true;
   try { c.fn(); }
   catch (std::exception &e) { fedisableexcept(FE_ALL_EXCEPT); finish("crash", string("exception: ") + e.what()); }
   g_active = false;
   fedisableexcept(FE_ALL_EXCEPT);
   decide();
   if (g_pin)
   {
      std::ostringstream o; o << "PINVALS {"; bool f = true;
      for (size_t a = 0; a < atoms.size(); a++) if (atoms[a].k == VAR) { o << (f ? "" : ",") << "\"" << jesc(atoms[a].name) << "\":" << dstr(evalAtom(samples[0], a)); f = false; }
      o << "}"; emit(o.str());
   }
   finish("done", "");
}

struct Kid { pid_t pid; int fd; string buf; size_t ci; vector<Dec> pre; double start; };
int main(int argc, char **argv)
{
   string only, outf = "/dev/stdout"; int jobs = 8; long maxp = 4000; bool thorough = false, list = false; double deadline = 1e9;
   for (int i = 1; i < argc; i++)
   {
      string a = argv[i];
      if (a == "--case") only = argv[++i]; else if (a == "--out") outf = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]);
      else if (a == "--maxpaths") maxp = atol(argv[++i]); else if (a == "--thorough") thorough = true; else if (a == "--pin") g_pin = true;
      else if (a == "--seed") g_seed = atoi(argv[++i]); else if (a == "--list") list = true; else if (a == "--deadline") deadline = atof(argv[++i]);
   }
   auto &cs = sx::cases();
   if (list) { for (auto &c : cs) printf("%s%s\n", c.name, c.thorough ? " thorough" : ""); return 0; }
   sx_detour_all();
   FILE *of = fopen(outf.c_str(), "w");
   if (!of) { perror("out"); return 2; }
   std::deque<std::pair<size_t, vector<Dec>>> queue;
   vector<long> paths(cs.size(), 0);
   for (size_t i = 0; i < cs.size(); i++) if ((only.empty() || only == cs[i].name) && (thorough || !cs[i].thorough || !only.empty())) queue.push_back({i, {}});
   vector<Kid> kids; double lastSweep = 0; const char *pt = getenv("SX_PATH_TIMEOUT"); const double maxPath = (pt ? atoi(pt) : 400) + 75;
   auto t0 = std::chrono::steady_clock::now();
   vector<char> dead(cs.size(), 0); vector<int> viols(cs.size(), 0); double firstViol = -1;
   while (!queue.empty() || !kids.empty())
   {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      while (!queue.empty() && (int)kids.size() < jobs)
      {
         auto job = queue.front(); queue.pop_front();
         size_t ci = job.first;
         if (viols[ci] >= 2) { continue; }       // enough counterexamples for this case
         if (firstViol >= 0 && el > firstViol + 90) { if (!dead[ci]) { fprintf(of, "{\"case\":\"%s\",\"ev\":\"incomplete\",\"why\":\"stopped after a counterexample\"}\n", cs[ci].name); dead[ci] = 1; } continue; }
         if (++paths[ci] > maxp || el > deadline) { if (!dead[ci]) { fprintf(of, "{\"case\":\"%s\",\"ev\":\"incomplete\",\"why\":\"%s\"}\n", cs[ci].name, el > deadline ? "deadline" : "path limit"); dead[ci] = 1; } continue; }
         int p[2]; if (pipe(p)) { perror("pipe"); return 2; }
         fflush(of); fflush(stdout);
         pid_t pid = fork();
         if (pid == 0) { close(p[0]); for (auto &k : kids) close(k.fd); prefix = job.second; childMain(cs[ci], p[1]); _exit(0); }
         close(p[1]);
         kids.push_back({pid, p[0], "", ci, job.second, el});
      }
      if (el > lastSweep + 5) { lastSweep = el; for (auto &k : kids) if (el > k.start + maxPath || (firstViol >= 0 && el > firstViol + 120)) kill(k.pid, SIGKILL); }
      vector<pollfd> pf; for (auto &k : kids) pf.push_back({k.fd, POLLIN, 0});
      poll(pf.data(), pf.size(), 1000);
      for (int i = (int)kids.size() - 1; i >= 0; i--)
      {
         if (!(pf[i].revents & (POLLIN | POLLHUP))) continue;
         char b[65536]; ssize_t n = read(kids[i].fd, b, sizeof b);
         if (n > 0) { kids[i].buf.append(b, n); continue; }
         int st; waitpid(kids[i].pid, &st, 0); close(kids[i].fd);
         bool end = false;
         std::istringstream is(kids[i].buf); string line;
         while (std::getline(is, line))
         {
            string tag = line.substr(0, line.find(' ')), rest = line.size() > tag.size() ? line.substr(tag.size() + 1) : "";
            if (tag == "ALT")
            {
               vector<Dec> d; std::istringstream ds(rest); string t;
               while (ds >> t) { Dec x; x.kind = t[0] - '0'; x.v = atoll(t.c_str() + 2); d.push_back(x); }
               queue.push_back({kids[i].ci, d});
            }
            else if (tag == "NOTE") fprintf(of, "{\"case\":\"%s\",\"ev\":\"note\",\"d\":\"%s\"}\n", cs[kids[i].ci].name, jesc(rest).c_str());
            else
            {
               if (tag == "VIOL") { viols[kids[i].ci]++; if (firstViol < 0) firstViol = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
               string ev = tag; for (auto &ch : ev) ch = tolower(ch);
               fprintf(of, "{\"case\":\"%s\",\"ev\":\"%s\",\"d\":%s}\n", cs[kids[i].ci].name, ev.c_str(), rest.c_str());
               if (tag == "END") end = true;
            }
         }
         if (!end) fprintf(of, "{\"case\":\"%s\",\"ev\":\"end\",\"d\":{\"status\":\"died\",\"msg\":\"wait status %d\",\"obligations\":0,\"queries\":0,\"sat\":0,\"unsat\":0,\"unknown\":0,\"solver_s\":0,\"symops\":0,\"exprs\":0,\"unknown_obs\":0,\"viol\":0,\"model\":{},\"fns\":[]}}\n", cs[kids[i].ci].name, st);
         kids.erase(kids.begin() + i);
      }
   }
   fclose(of);
   return 0;
}
