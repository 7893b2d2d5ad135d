// helpers shared by the harnesses
#pragma once
#include "sx.hpp"
#include "mfem.hpp"
#include <string>
#include <vector>
using namespace mfem;
typedef std::string S;
static inline S I(int i) { return std::to_string(i); }
static inline S I(int i, int j) { return "[" + std::to_string(i) + "," + std::to_string(j) + "]"; }
static inline S I(int i, int j, int k) { return "[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + "]"; }
static inline void fill(Vector &v, const S &n, double lo = -1, double hi = 1) { for (int i = 0; i < v.Size(); i++) v[i] = sx::real(n + "[" + I(i) + "]", lo, hi); }
static inline void fill(DenseMatrix &m, const S &n, double lo = -1, double hi = 1) { for (int j = 0; j < m.Width(); j++) for (int i = 0; i < m.Height(); i++) m(i, j) = sx::real(n + I(i, j), lo, hi); }
static inline void fill(DenseTensor &t, const S &n, double lo = -1, double hi = 1) { for (int k = 0; k < t.SizeK(); k++) for (int j = 0; j < t.SizeJ(); j++) for (int i = 0; i < t.SizeI(); i++) t(i, j, k) = sx::real(n + I(i, j, k), lo, hi); }
static inline Vector vec(int n, const S &nm, double lo = -1, double hi = 1) { Vector v(n); fill(v, nm, lo, hi); return v; }
static inline DenseMatrix mat(int h, int w, const S &nm, double lo = -1, double hi = 1) { DenseMatrix m(h, w); fill(m, nm, lo, hi); return m; }
static inline void eqv(const Vector &a, const Vector &b, const S &l, double tol = 1e-9)
{
   sx::check(a.Size() == b.Size(), l + ": sizes agree");
   for (int i = 0; i < std::min(a.Size(), b.Size()); i++) sx::eq(a[i], b[i], l + "[" + I(i) + "]", tol);
}
static inline void eqm(const DenseMatrix &a, const DenseMatrix &b, const S &l, double tol = 1e-9)
{
   sx::check(a.Height() == b.Height() && a.Width() == b.Width(), l + ": sizes agree");
   if (a.Height() != b.Height() || a.Width() != b.Width()) return;
   for (int j = 0; j < a.Width(); j++) for (int i = 0; i < a.Height(); i++) sx::eq(a(i, j), b(i, j), l + I(i, j), tol);
}
static inline void eqs(const SparseMatrix &a, const DenseMatrix &b, const S &l, double tol = 1e-9) { DenseMatrix d; a.ToDenseMatrix(d); eqm(d, b, l, tol); }
// an array of n integers, every value in lo..hi, all combinations explored
static inline Array<int> chooseArr(int n, const S &nm, int lo, int hi) { Array<int> a(n); for (int i = 0; i < n; i++) a[i] = sx::choose(nm + "[" + I(i) + "]", lo, hi); return a; }
static inline Vector colv(const DenseMatrix &m, int c) { Vector v(m.Height()); for (int i = 0; i < m.Height(); i++) v[i] = m(i, c); return v; }
// sparse matrix with symbolic entries on the pattern
static inline SparseMatrix *sparse(int h, int w, const S &nm, const std::vector<std::pair<int, int>> &pat, DenseMatrix *d = nullptr, double lo = -1, double hi = 1)
{
   SparseMatrix *s = new SparseMatrix(h, w);
   if (d) { d->SetSize(h, w); *d = 0.0; }
   for (auto &p : pat) { double v = sx::real(nm + I(p.first, p.second), lo, hi); s->Set(p.first, p.second, v); if (d) (*d)(p.first, p.second) = v; }
   s->Finalize(0);
   return s;
}
static inline DenseMatrix refRtAP(const DenseMatrix &R, const DenseMatrix &A, const DenseMatrix &P)
{
   DenseMatrix r(R.Width(), P.Width());
   for (int i = 0; i < R.Width(); i++) for (int j = 0; j < P.Width(); j++)
   { double s = 0; for (int k = 0; k < A.Height(); k++) for (int l = 0; l < A.Width(); l++) s += R(k, i) * A(k, l) * P(l, j); r(i, j) = s; }
   return r;
}
