// Harness API.  The same harness source is compiled twice:
//  * symbolic build (instrumented by SxPass, linked with rt.cpp): the calls
//    below create symbolic inputs and proof obligations;
//  * replay build (plain g++, real libmfem, linked with replay_rt.cpp): inputs
//    come from a counterexample / seed file and obligations are evaluated.
#pragma once
#include <functional>
#include <string>
#include <vector>

extern "C" {
double sx_real(const char *name, double lo, double hi);
int sx_integer(const char *name, int lo, int hi);
void sx_assume(bool c);
void sx_check(bool c, const char *label);
void sx_eq(double a, double b, const char *label, double tol);
double sx_deriv(double f, double var);
bool sx_is_replay();
bool sx_is_symbolic(double v);
void sx_note(const char *msg);
int sx_concrete(int v);
double sx_conc_real(double v);
// on: inputs for which some denominator vanishes are outside the property's domain
void sx_nonzero_denominators(bool on);
bool sx_rejects_raw(void (*f)(void *), void *arg);
}

namespace sx {
inline double real(const std::string &n, double lo = -1.0, double hi = 1.0) { return sx_real(n.c_str(), lo, hi); }
inline int integer(const std::string &n, int lo, int hi) { return sx_integer(n.c_str(), lo, hi); }
// an integer choice that is made concrete at once (every feasible value is explored as its own path)
inline int choose(const std::string &n, int lo, int hi) { return sx_concrete(sx_integer(n.c_str(), lo, hi)); }
inline void assume(bool c) { sx_assume(c); }
inline void check(bool c, const std::string &l) { sx_check(c, l.c_str()); }
inline void eq(double a, double b, const std::string &l, double tol = 1e-9) { sx_eq(a, b, l.c_str(), tol); }
// true iff f stops with an abort()/error exception (mfem_error, assert) instead of returning
template <class F> bool rejects(F f) { return sx_rejects_raw([](void *p) { (*(F *)p)(); }, &f); }
inline bool replay() { return sx_is_replay(); }

// J(i,j) == d r_i / d x_j for every x.  r is evaluated by calling f on (a copy of) x.
// symbolic build: exact derivative of the computed expressions; replay: central differences.
template <class F, class JF>
void jacobian(const std::string &label, std::vector<double> x, F f, JF J, double tol = 1e-9)
{
   const int n = x.size();
   if (!sx_is_replay())
   {
      std::vector<double> r = f(x);
      for (int i = 0; i < (int)r.size(); i++)
         for (int j = 0; j < n; j++)
            sx_eq(J(i, j), sx_deriv(r[i], x[j]), (label + "[" + std::to_string(i) + "," + std::to_string(j) + "]").c_str(), tol);
      return;
   }
   const double h = 1e-4;
   std::vector<std::vector<double>> cols;
   int m = 0;
   for (int j = 0; j < n; j++)
   {
      std::vector<double> a = x, b = x, c = x, d = x;
      a[j] += h; b[j] -= h; c[j] += 2 * h; d[j] -= 2 * h;
      std::vector<double> ra = f(a), rb = f(b), rc = f(c), rd = f(d);
      m = ra.size();
      std::vector<double> col(m);
      for (int i = 0; i < m; i++) col[i] = (8.0 * (ra[i] - rb[i]) - (rc[i] - rd[i])) / (12.0 * h);
      cols.push_back(col);
   }
   for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++)
         sx_eq(J(i, j), cols[j][i], (label + "[" + std::to_string(i) + "," + std::to_string(j) + "]").c_str(), -1e-7);
}

struct Case { const char *name; void (*fn)(); bool thorough; };
std::vector<Case> &cases();
struct Reg { Reg(const char *n, void (*f)(), bool th = false) { cases().push_back({n, f, th}); } };
} // namespace sx

#define SX_CASE(n) static void sxcase_##n(); static sx::Reg sxreg_##n(#n, &sxcase_##n); static void sxcase_##n()
#define SX_CASE_THOROUGH(n) static void sxcase_##n(); static sx::Reg sxreg_##n(#n, &sxcase_##n, true); static void sxcase_##n()
