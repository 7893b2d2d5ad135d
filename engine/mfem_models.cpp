// Numerical kernels of MFEM 4.5.2 re-stated in C++ so that they can be
// instrumented by SxPass and run on symbolic values (libmfem.so itself is a
// binary).  Only value-level semantics matter here: exact-real results are the
// same for any order of summation.  detour.cpp redirects the entry points inside
// libmfem.so to these definitions; the replay build links the unmodified library.
#include "mfem.hpp"
#include <cmath>
#include <cstring>
#include <vector>
extern "C" bool sx_is_symbolic(double v);
namespace mfem
{
static __attribute__((noinline, optnone)) bool czero(double v) { uint64_t u; memcpy(&u, &v, 8); return (u << 1) == 0; }   // concrete zero (bitwise: never a branch on a symbolic value)
// ------------------------------------------------------------------ Vector
double Vector::operator*(const double *v) const { double d = 0.0; const double *p = HostRead(); for (int i = 0; i < size; i++) d += p[i] * v[i]; return d; }
double Vector::operator*(const Vector &v) const { MFEM_VERIFY(size == v.size, "incompatible Vectors!"); double d = 0.0; const double *p = HostRead(), *q = v.HostRead(); for (int i = 0; i < size; i++) d += p[i] * q[i]; return d; }
Vector &Vector::operator*=(double c) { double *p = HostReadWrite(); for (int i = 0; i < size; i++) p[i] = p[i] * c; return *this; }
Vector &Vector::operator*=(const Vector &v) { double *p = HostReadWrite(); const double *q = v.HostRead(); for (int i = 0; i < size; i++) p[i] = p[i] * q[i]; return *this; }
Vector &Vector::operator/=(double c) { const double m = 1.0 / c; double *p = HostReadWrite(); for (int i = 0; i < size; i++) p[i] = p[i] * m; return *this; }
Vector &Vector::operator/=(const Vector &v) { double *p = HostReadWrite(); const double *q = v.HostRead(); for (int i = 0; i < size; i++) p[i] = p[i] / q[i]; return *this; }
Vector &Vector::operator-=(double c) { double *p = HostReadWrite(); for (int i = 0; i < size; i++) p[i] = p[i] - c; return *this; }
Vector &Vector::operator-=(const Vector &v) { MFEM_VERIFY(size == v.size, "incompatible Vectors!"); double *p = HostReadWrite(); const double *q = v.HostRead(); for (int i = 0; i < size; i++) p[i] = p[i] - q[i]; return *this; }
Vector &Vector::operator+=(double c) { double *p = HostReadWrite(); for (int i = 0; i < size; i++) p[i] = p[i] + c; return *this; }
Vector &Vector::operator+=(const Vector &v) { MFEM_VERIFY(size == v.size, "incompatible Vectors!"); double *p = HostReadWrite(); const double *q = v.HostRead(); for (int i = 0; i < size; i++) p[i] = p[i] + q[i]; return *this; }
Vector &Vector::Add(const double a, const Vector &Va) { MFEM_VERIFY(size == Va.size, "incompatible Vectors!"); if (!czero(a)) { double *p = HostReadWrite(); const double *q = Va.HostRead(); for (int i = 0; i < size; i++) p[i] = p[i] + a * q[i]; } return *this; }
Vector &Vector::Set(const double a, const Vector &Va) { MFEM_VERIFY(size == Va.size, "incompatible Vectors!"); double *p = HostWrite(); const double *q = Va.HostRead(); for (int i = 0; i < size; i++) p[i] = a * q[i]; return *this; }
void Vector::AddSubVector(const Vector &v, int offset) { MFEM_VERIFY(v.Size() + offset <= size, "invalid sub-vector"); const double *q = v.HostRead(); double *p = HostReadWrite(); for (int i = 0; i < v.Size(); i++) p[i + offset] = p[i + offset] + q[i]; }
void Vector::Neg() { double *p = HostReadWrite(); for (int i = 0; i < size; i++) p[i] = -p[i]; }
void Vector::GetSubVector(const Array<int> &dofs, Vector &e) const { e.SetSize(dofs.Size()); GetSubVector(dofs, e.HostWrite()); }
void Vector::GetSubVector(const Array<int> &dofs, double *e) const { const double *p = HostRead(); for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; e[i] = (j >= 0) ? p[j] : -p[-1 - j]; } }
void Vector::SetSubVector(const Array<int> &dofs, const double v) { double *p = HostReadWrite(); for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) p[j] = v; else p[-1 - j] = -v; } }
void Vector::SetSubVector(const Array<int> &dofs, const Vector &e) { MFEM_VERIFY(dofs.Size() <= e.Size(), "Size mismatch"); SetSubVector(dofs, const_cast<double *>(e.HostRead())); }
void Vector::SetSubVector(const Array<int> &dofs, double *e) { double *p = HostReadWrite(); for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) p[j] = e[i]; else p[-1 - j] = -e[i]; } }
void Vector::AddElementVector(const Array<int> &dofs, const Vector &e) { MFEM_VERIFY(dofs.Size() <= e.Size(), "Size mismatch"); AddElementVector(dofs, const_cast<double *>(e.HostRead())); }
void Vector::AddElementVector(const Array<int> &dofs, double *e) { double *p = HostReadWrite(); for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) p[j] = p[j] + e[i]; else p[-1 - j] = p[-1 - j] - e[i]; } }
void Vector::AddElementVector(const Array<int> &dofs, const double a, const Vector &v) { double *p = HostReadWrite(); const double *e = v.HostRead(); for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) p[j] = p[j] + a * e[i]; else p[-1 - j] = p[-1 - j] - a * e[i]; } }
void Vector::SetSubVectorComplement(const Array<int> &dofs, const double val) { std::vector<char> m(size, 0); for (int i = 0; i < dofs.Size(); i++) m[dofs[i] >= 0 ? dofs[i] : -1 - dofs[i]] = 1; double *p = HostReadWrite(); for (int i = 0; i < size; i++) if (!m[i]) p[i] = val; }
double Vector::Norml2() const { const double *p = HostRead(); double s = 0; for (int i = 0; i < size; i++) s += p[i] * p[i]; return sqrt(s); }
double Vector::Normlinf() const { const double *p = HostRead(); double m = 0; for (int i = 0; i < size; i++) { double a = fabs(p[i]); if (a > m) m = a; } return m; }
double Vector::Norml1() const { const double *p = HostRead(); double s = 0; for (int i = 0; i < size; i++) s += fabs(p[i]); return s; }
double Vector::Max() const { if (!size) return -infinity(); const double *p = HostRead(); double m = p[0]; for (int i = 1; i < size; i++) if (p[i] > m) m = p[i]; return m; }
double Vector::Min() const { if (!size) return infinity(); const double *p = HostRead(); double m = p[0]; for (int i = 1; i < size; i++) if (p[i] < m) m = p[i]; return m; }
double Vector::Sum() const { const double *p = HostRead(); double s = 0; for (int i = 0; i < size; i++) s += p[i]; return s; }
void add(const Vector &a, const Vector &b, Vector &v) { MFEM_VERIFY(a.size == b.size && a.size == v.size, ""); const double *x = a.HostRead(), *y = b.HostRead(); double *z = v.HostWrite(); for (int i = 0; i < a.size; i++) z[i] = x[i] + y[i]; }
void add(const Vector &a, double c, const Vector &b, Vector &v) { MFEM_VERIFY(a.size == b.size && a.size == v.size, ""); const double *x = a.HostRead(), *y = b.HostRead(); double *z = v.HostWrite(); for (int i = 0; i < a.size; i++) z[i] = x[i] + c * y[i]; }
void add(double c, const Vector &a, const Vector &b, Vector &v) { MFEM_VERIFY(a.size == b.size && a.size == v.size, ""); const double *x = a.HostRead(), *y = b.HostRead(); double *z = v.HostWrite(); for (int i = 0; i < a.size; i++) z[i] = c * (x[i] + y[i]); }
void add(double c, const Vector &a, double d, const Vector &b, Vector &v) { MFEM_VERIFY(a.size == b.size && a.size == v.size, ""); const double *x = a.HostRead(), *y = b.HostRead(); double *z = v.HostWrite(); for (int i = 0; i < a.size; i++) z[i] = c * x[i] + d * y[i]; }
void subtract(const Vector &a, const Vector &b, Vector &v) { MFEM_VERIFY(a.size == b.size && a.size == v.size, ""); const double *x = a.HostRead(), *y = b.HostRead(); double *z = v.HostWrite(); for (int i = 0; i < a.size; i++) z[i] = x[i] - y[i]; }
void subtract(double c, const Vector &a, const Vector &b, Vector &v) { MFEM_VERIFY(a.size == b.size && a.size == v.size, ""); const double *x = a.HostRead(), *y = b.HostRead(); double *z = v.HostWrite(); for (int i = 0; i < a.size; i++) z[i] = c * (x[i] - y[i]); }

// ------------------------------------------------------------------ Mesh
// the orientation of elements with symbolic corners is not examined (harnesses keep them valid); otherwise as MFEM
int Mesh::CheckElementOrientation(bool fix_it)
{
   int wo = 0, fo = 0;
   for (int i = 0; i < NumOfElements; i++)
   {
      int *vi = elements[i]->GetVertices(), nv = elements[i]->GetNVertices(); bool sym = false;
      if (Nodes == NULL) for (int a = 0; a < nv; a++) for (int k = 0; k < spaceDim; k++) sym = sym || sx_is_symbolic(vertices[vi[a]](k));
      if (Nodes != NULL) { Array<int> d; Nodes->FESpace()->GetElementVDofs(i, d); for (int k = 0; k < d.Size(); k++) sym = sym || sx_is_symbolic((*Nodes)[d[k]]); }
      if (sym || Dim != spaceDim || Dim < 2) continue;
      const Element::Type t = GetElementType(i); const bool simplex = Dim == 2 || t == Element::TETRAHEDRON; DenseMatrix J(Dim, Dim);
      if (simplex && Nodes == NULL) { for (int j = 0; j < Dim; j++) for (int k = 0; k < Dim; k++) J(j, k) = vertices[vi[j + 1]](k) - vertices[vi[0]](k); }
      else GetElementJacobian(i, J);
      if (J.Det() < 0.0)
      {
         wo++;
         if (fix_it && t != Element::HEXAHEDRON && t != Element::WEDGE && t != Element::PYRAMID) { if (t == Element::QUADRILATERAL) mfem::Swap(vi[1], vi[3]); else mfem::Swap(vi[0], vi[1]); fo++; }
      }
   }
   if (wo > 0) mfem::out << "Elements with wrong orientation: " << wo << " / " << NumOfElements << " (" << (fo == wo ? "fixed" : "NOT FIXED") << ")" << std::endl;
   return wo;
}
// ------------------------------------------------------------------ DenseMatrix
double DenseMatrix::operator*(const DenseMatrix &m) const { MFEM_VERIFY(Height() == m.Height() && Width() == m.Width(), "incompatible dimensions"); double a = 0; const int n = height * width; for (int i = 0; i < n; i++) a += data[i] * m.data[i]; return a; }
double DenseMatrix::Trace() const { double t = 0; for (int i = 0; i < width; i++) t += (*this)(i, i); return t; }
void DenseMatrix::Mult(const double *x, double *y) const { for (int i = 0; i < height; i++) { double s = 0; for (int j = 0; j < width; j++) s += (*this)(i, j) * x[j]; y[i] = s; } }
void DenseMatrix::Mult(const double *x, Vector &y) const { MFEM_VERIFY(height == y.Size(), "incompatible dimensions"); Mult(x, y.HostWrite()); }
void DenseMatrix::Mult(const Vector &x, double *y) const { MFEM_VERIFY(width == x.Size(), "incompatible dimensions"); Mult(x.HostRead(), y); }
void DenseMatrix::Mult(const Vector &x, Vector &y) const { MFEM_VERIFY(height == y.Size() && width == x.Size(), "incompatible dimensions"); Mult(x.HostRead(), y.HostWrite()); }
void DenseMatrix::MultTranspose(const double *x, double *y) const { for (int j = 0; j < width; j++) { double s = 0; for (int i = 0; i < height; i++) s += (*this)(i, j) * x[i]; y[j] = s; } }
void DenseMatrix::MultTranspose(const double *x, Vector &y) const { MFEM_VERIFY(width == y.Size(), "incompatible dimensions"); MultTranspose(x, y.HostWrite()); }
void DenseMatrix::MultTranspose(const Vector &x, double *y) const { MFEM_VERIFY(height == x.Size(), "incompatible dimensions"); MultTranspose(x.HostRead(), y); }
void DenseMatrix::MultTranspose(const Vector &x, Vector &y) const { MFEM_VERIFY(height == x.Size() && width == y.Size(), "incompatible dimensions"); MultTranspose(x.HostRead(), y.HostWrite()); }
void DenseMatrix::AddMult(const Vector &x, Vector &y, const double a) const { MFEM_VERIFY(height == y.Size() && width == x.Size(), "incompatible dimensions"); AddMult_a(a, x, y); }
void DenseMatrix::AddMultTranspose(const Vector &x, Vector &y, const double a) const { MFEM_VERIFY(height == x.Size() && width == y.Size(), "incompatible dimensions"); AddMultTranspose_a(a, x, y); }
void DenseMatrix::AddMult_a(double a, const Vector &x, Vector &y) const { const double *xp = x.HostRead(); double *yp = y.HostReadWrite(); for (int i = 0; i < height; i++) { double s = 0; for (int j = 0; j < width; j++) s += (*this)(i, j) * xp[j]; yp[i] = yp[i] + a * s; } }
void DenseMatrix::AddMultTranspose_a(double a, const Vector &x, Vector &y) const { const double *xp = x.HostRead(); double *yp = y.HostReadWrite(); for (int j = 0; j < width; j++) { double s = 0; for (int i = 0; i < height; i++) s += (*this)(i, j) * xp[i]; yp[j] = yp[j] + a * s; } }
double DenseMatrix::InnerProduct(const double *x, const double *y) const { double p = 0; for (int i = 0; i < height; i++) { double s = 0; for (int j = 0; j < width; j++) s += (*this)(i, j) * x[j]; p += s * y[i]; } return p; }
void DenseMatrix::LeftScaling(const Vector &s) { for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) (*this)(i, j) = (*this)(i, j) * s(i); }
void DenseMatrix::InvLeftScaling(const Vector &s) { for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) (*this)(i, j) = (*this)(i, j) / s(i); }
void DenseMatrix::RightScaling(const Vector &s) { for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) (*this)(i, j) = (*this)(i, j) * s(j); }
void DenseMatrix::InvRightScaling(const Vector &s) { for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) (*this)(i, j) = (*this)(i, j) / s(j); }
double DenseMatrix::Det() const
{
   MFEM_VERIFY(Height() == Width() && Height() > 0, "The matrix must be square");
   const DenseMatrix &a = *this;
   switch (height)
   {
      case 1: return a(0, 0);
      case 2: return a(0, 0) * a(1, 1) - a(1, 0) * a(0, 1);
      case 3: return a(0, 0) * (a(1, 1) * a(2, 2) - a(2, 1) * a(1, 2)) + a(1, 0) * (a(2, 1) * a(0, 2) - a(0, 1) * a(2, 2)) + a(2, 0) * (a(0, 1) * a(1, 2) - a(1, 1) * a(0, 2));
      default:
      {
         double s = 0.0;
         for (int c = 0; c < width; c++)
         {
            DenseMatrix m(height - 1);
            for (int j = 0, jj = 0; j < width; j++) if (j != c) { for (int i = 1; i < height; i++) m(i - 1, jj) = a(i, j); jj++; }
            s += (c % 2 ? -1.0 : 1.0) * a(0, c) * m.Det();
         }
         return s;
      }
   }
}
double DenseMatrix::Weight() const
{
   if (Height() == Width()) return Det();
   const double *d = data;
   if (Height() == 2 && Width() == 1) return sqrt(d[0] * d[0] + d[1] * d[1]);
   if (Height() == 3 && Width() == 1) return sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
   if (Height() == 3 && Width() == 2)
   {
      double E = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], G = d[3] * d[3] + d[4] * d[4] + d[5] * d[5], F = d[0] * d[3] + d[1] * d[4] + d[2] * d[5];
      return sqrt(E * G - F * F);
   }
   mfem_error("DenseMatrix::Weight(): mismatched or unsupported dimensions");
   return 0.0;
}
void DenseMatrix::Set(double alpha, const double *A) { const int s = Width() * Height(); for (int i = 0; i < s; i++) data[i] = alpha * A[i]; }
void DenseMatrix::Add(const double c, const DenseMatrix &A) { for (int j = 0; j < Width(); j++) for (int i = 0; i < Height(); i++) (*this)(i, j) = (*this)(i, j) + c * A(i, j); }
void DenseMatrix::Add(const double c, const double *A) { const int s = Width() * Height(); for (int i = 0; i < s; i++) data[i] = data[i] + c * A[i]; }
DenseMatrix &DenseMatrix::operator+=(const double *m) { const int s = Width() * Height(); for (int i = 0; i < s; i++) data[i] = data[i] + m[i]; return *this; }
DenseMatrix &DenseMatrix::operator+=(const DenseMatrix &m) { MFEM_VERIFY(Height() == m.Height() && Width() == m.Width(), "incompatible matrix sizes."); return *this += m.GetData(); }
DenseMatrix &DenseMatrix::operator-=(const DenseMatrix &m) { for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) (*this)(i, j) = (*this)(i, j) - m(i, j); return *this; }
DenseMatrix &DenseMatrix::operator*=(double c) { const int s = Width() * Height(); for (int i = 0; i < s; i++) data[i] = data[i] * c; return *this; }
void DenseMatrix::Neg() { const int s = Width() * Height(); for (int i = 0; i < s; i++) data[i] = -data[i]; }
double DenseMatrix::MaxMaxNorm() const { double m = 0; const int s = Width() * Height(); for (int i = 0; i < s; i++) { double a = fabs(data[i]); if (a > m) m = a; } return m; }
void DenseMatrix::FNorm(double &scale_factor, double &scaled_fnorm2) const { double f = 0; const int s = Width() * Height(); for (int i = 0; i < s; i++) f += data[i] * data[i]; scale_factor = 1.0; scaled_fnorm2 = f; }
void DenseMatrix::Norm2(double *v) const { for (int j = 0; j < Width(); j++) { v[j] = 0.0; for (int i = 0; i < Height(); i++) v[j] = v[j] + (*this)(i, j) * (*this)(i, j); v[j] = sqrt(v[j]); } }
void DenseMatrix::GetRowSums(Vector &l) const { l.SetSize(height); for (int i = 0; i < height; i++) { double d = 0; for (int j = 0; j < width; j++) d += (*this)(i, j); l(i) = d; } }
void DenseMatrix::Getl1Diag(Vector &l) const { l.SetSize(height); l = 0.0; for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) l(i) = l(i) + fabs((*this)(i, j)); }
void DenseMatrix::Symmetrize() { for (int i = 0; i < Height(); i++) for (int j = 0; j < i; j++) { double a = 0.5 * ((*this)(i, j) + (*this)(j, i)); (*this)(j, i) = (*this)(i, j) = a; } }
void DenseMatrix::Lump() { for (int i = 0; i < Height(); i++) { double L = 0.0; for (int j = 0; j < Width(); j++) { L += (*this)(i, j); (*this)(i, j) = 0.0; } (*this)(i, i) = L; } }
void DenseMatrix::GradToDiv(Vector &div) { const int n = height * width; MFEM_VERIFY(div.Size() == n, "size"); for (int i = 0; i < n; i++) div(i) = data[i]; }
void DenseMatrix::AddMatrix(DenseMatrix &A, int ro, int co) { MFEM_VERIFY(co + A.Width() <= Width() && ro + A.Height() <= Height(), "DenseMatrix::AddMatrix"); for (int c = 0; c < A.Width(); c++) for (int r = 0; r < A.Height(); r++) (*this)(ro + r, co + c) = (*this)(ro + r, co + c) + A(r, c); }
void DenseMatrix::AddMatrix(double a, const DenseMatrix &A, int ro, int co) { MFEM_VERIFY(co + A.Width() <= Width() && ro + A.Height() <= Height(), "DenseMatrix::AddMatrix"); for (int c = 0; c < A.Width(); c++) for (int r = 0; r < A.Height(); r++) (*this)(ro + r, co + c) = (*this)(ro + r, co + c) + a * A(r, c); }
void DenseMatrix::AddSubMatrix(const Array<int> &idx, const DenseMatrix &A) { AddSubMatrix(idx, idx, A); }
void DenseMatrix::AddSubMatrix(const Array<int> &ii, const Array<int> &jj, const DenseMatrix &A) { for (int j = 0; j < jj.Size(); j++) for (int i = 0; i < ii.Size(); i++) (*this)(ii[i], jj[j]) = (*this)(ii[i], jj[j]) + A(i, j); }
void DenseMatrix::AddSubMatrix(int ibeg, const DenseMatrix &A) { AddSubMatrix(ibeg, ibeg, A); }
void DenseMatrix::AddSubMatrix(int ibeg, int jbeg, const DenseMatrix &A) { MFEM_VERIFY(ibeg + A.Height() <= Height() && jbeg + A.Width() <= Width(), ""); for (int j = 0; j < A.Width(); j++) for (int i = 0; i < A.Height(); i++) (*this)(ibeg + i, jbeg + j) = (*this)(ibeg + i, jbeg + j) + A(i, j); }
void DenseMatrix::AddToVector(int offset, Vector &v) const { const int n = height * width; double *vd = v.HostReadWrite() + offset; for (int i = 0; i < n; i++) vd[i] = vd[i] + data[i]; }
void DenseMatrix::AdjustDofDirection(Array<int> &dofs) { const int n = dofs.Size(); for (int i = 0; i < n - 1; i++) { const int s = dofs[i] < 0 ? -1 : 1; for (int j = i + 1; j < n; j++) { const int t = (dofs[j] < 0) ? -s : s; if (t < 0) { (*this)(i, j) = -(*this)(i, j); (*this)(j, i) = -(*this)(j, i); } } } }
void DenseMatrix::Threshold(double eps) { const int n = height * width; for (int i = 0; i < n; i++) if (fabs(data[i]) <= eps) data[i] = 0.0; }
static void gauss_inv(int n, std::vector<double> a, double *x /* n*n, column major: identity on entry, inverse on exit */, int m)
{
   for (int c = 0; c < n; c++)
   {
      int p = -1;
      // a pivot that is non-zero on this path (exact arithmetic: any will do)
      for (int i = c; i < n && p < 0; i++) { double v = a[i + n * c]; if (!sx_is_symbolic(v) && !czero(v)) p = i; }
      for (int i = c; i < n && p < 0; i++) { double v = a[i + n * c]; if (v != 0.0) p = i; }
      MFEM_VERIFY(p >= 0, "DenseMatrix: singular matrix");
      if (p != c) { for (int j = 0; j < n; j++) std::swap(a[c + n * j], a[p + n * j]); for (int j = 0; j < m; j++) std::swap(x[c + n * j], x[p + n * j]); }
      const double d = 1.0 / a[c + n * c];
      for (int j = c; j < n; j++) a[c + n * j] = a[c + n * j] * d;
      for (int j = 0; j < m; j++) x[c + n * j] = x[c + n * j] * d;
      for (int i = 0; i < n; i++) if (i != c)
      {
         const double f = a[i + n * c];
         if (czero(f)) continue;
         for (int j = c; j < n; j++) a[i + n * j] = a[i + n * j] - f * a[c + n * j];
         for (int j = 0; j < m; j++) x[i + n * j] = x[i + n * j] - f * x[c + n * j];
      }
   }
}
void DenseMatrix::Invert() { MFEM_VERIFY(Height() == Width() && Height() > 0, "matrix is not square"); std::vector<double> a(data + 0, data + height * width); for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) (*this)(i, j) = (i == j) ? 1.0 : 0.0; gauss_inv(height, a, Data(), width); }
bool LinearSolve(DenseMatrix &A, double *X, double) { std::vector<double> a(A.GetData(), A.GetData() + A.Height() * A.Width()); gauss_inv(A.Height(), a, X, 1); return true; }

void Add(const DenseMatrix &A, const DenseMatrix &B, double alpha, DenseMatrix &C) { for (int j = 0; j < C.Width(); j++) for (int i = 0; i < C.Height(); i++) C(i, j) = A(i, j) + alpha * B(i, j); }
void Add(double alpha, const double *A, double beta, const double *B, DenseMatrix &C) { const int m = C.Height() * C.Width(); double *c = C.GetData(); for (int i = 0; i < m; i++) c[i] = alpha * A[i] + beta * B[i]; }
void Add(double alpha, const DenseMatrix &A, double beta, const DenseMatrix &B, DenseMatrix &C) { Add(alpha, A.GetData(), beta, B.GetData(), C); }
void Mult(const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a) { MFEM_VERIFY(a.Height() == b.Height() && a.Width() == c.Width() && b.Width() == c.Height(), "incompatible dimensions"); for (int j = 0; j < a.Width(); j++) for (int i = 0; i < a.Height(); i++) { double s = 0; for (int k = 0; k < b.Width(); k++) s += b(i, k) * c(k, j); a(i, j) = s; } }
void AddMult(const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a) { MFEM_VERIFY(a.Height() == b.Height() && a.Width() == c.Width() && b.Width() == c.Height(), "incompatible dimensions"); for (int j = 0; j < a.Width(); j++) for (int i = 0; i < a.Height(); i++) { double s = 0; for (int k = 0; k < b.Width(); k++) s += b(i, k) * c(k, j); a(i, j) = a(i, j) + s; } }
void AddMult_a(double alpha, const DenseMatrix &b, const DenseMatrix &c, DenseMatrix &a) { MFEM_VERIFY(a.Height() == b.Height() && a.Width() == c.Width() && b.Width() == c.Height(), "incompatible dimensions"); for (int j = 0; j < a.Width(); j++) for (int i = 0; i < a.Height(); i++) { double s = 0; for (int k = 0; k < b.Width(); k++) s += b(i, k) * c(k, j); a(i, j) = a(i, j) + alpha * s; } }
void CalcAdjugate(const DenseMatrix &a, DenseMatrix &adj)
{
   if (a.Width() < a.Height())
   {
      const double *d = a.Data(); double *ad = adj.Data();
      if (a.Width() == 1) { for (int i = 0; i < a.Height(); i++) ad[i] = d[i]; }
      else
      {
         const double e = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], g = d[3] * d[3] + d[4] * d[4] + d[5] * d[5], f = d[0] * d[3] + d[1] * d[4] + d[2] * d[5];
         ad[0] = d[0] * g - d[3] * f; ad[1] = d[3] * e - d[0] * f; ad[2] = d[1] * g - d[4] * f; ad[3] = d[4] * e - d[1] * f; ad[4] = d[2] * g - d[5] * f; ad[5] = d[5] * e - d[2] * f;
      }
      return;
   }
   if (a.Width() == 1) adj(0, 0) = 1.0;
   else if (a.Width() == 2) { double a00 = a(0, 0), a01 = a(0, 1), a10 = a(1, 0), a11 = a(1, 1); adj(0, 0) = a11; adj(0, 1) = -a01; adj(1, 0) = -a10; adj(1, 1) = a00; }
   else
   {
      DenseMatrix r(3);
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int p = (j + 1) % 3, q = (j + 2) % 3, s = (i + 1) % 3, t = (i + 2) % 3; r(i, j) = a(p, s) * a(q, t) - a(p, t) * a(q, s); }
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) adj(i, j) = r(i, j);
   }
}
void CalcAdjugateTranspose(const DenseMatrix &a, DenseMatrix &adjat) { DenseMatrix t(a.Width(), a.Height()); CalcAdjugate(a, t); for (int i = 0; i < t.Height(); i++) for (int j = 0; j < t.Width(); j++) adjat(j, i) = t(i, j); }
void CalcInverse(const DenseMatrix &a, DenseMatrix &inv)
{
   DenseMatrix adj(a.Width(), a.Height()); CalcAdjugate(a, adj);
   double t = a.Height() == a.Width() ? a.Det() : 0.0;
   if (a.Width() < a.Height()) { double w = a.Weight(); t = w * w; }
   const double r = 1.0 / t;
   for (int i = 0; i < adj.Height(); i++) for (int j = 0; j < adj.Width(); j++) inv(i, j) = adj(i, j) * r;
}
void CalcInverseTranspose(const DenseMatrix &a, DenseMatrix &inva) { DenseMatrix t(a.Height()); CalcInverse(a, t); for (int i = 0; i < t.Height(); i++) for (int j = 0; j < t.Width(); j++) inva(j, i) = t(i, j); }
void CalcOrtho(const DenseMatrix &J, Vector &n)
{
   const double *d = J.Data();
   if (J.Height() == 2) { n(0) = d[1]; n(1) = -d[0]; }
   else { n(0) = d[1] * d[5] - d[2] * d[4]; n(1) = d[2] * d[3] - d[0] * d[5]; n(2) = d[0] * d[4] - d[1] * d[3]; }
}
void MultAAt(const DenseMatrix &a, DenseMatrix &aat) { for (int i = 0; i < a.Height(); i++) for (int j = 0; j <= i; j++) { double t = 0; for (int k = 0; k < a.Width(); k++) t += a(i, k) * a(j, k); aat(i, j) = aat(j, i) = t; } }
void AddMultADAt(const DenseMatrix &A, const Vector &D, DenseMatrix &R) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < A.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += D(k) * A(i, k) * A(j, k); R(i, j) = R(i, j) + t; } }
void MultADAt(const DenseMatrix &A, const Vector &D, DenseMatrix &R) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < A.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += D(k) * A(i, k) * A(j, k); R(i, j) = t; } }
void MultABt(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &R) { MFEM_VERIFY(A.Height() == R.Height() && B.Height() == R.Width() && A.Width() == B.Width(), "incompatible dimensions"); for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * B(j, k); R(i, j) = t; } }
void MultADBt(const DenseMatrix &A, const Vector &D, const DenseMatrix &B, DenseMatrix &R) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * D(k) * B(j, k); R(i, j) = t; } }
void AddMultABt(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &R) { MFEM_VERIFY(A.Height() == R.Height() && B.Height() == R.Width() && A.Width() == B.Width(), "incompatible dimensions"); for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * B(j, k); R(i, j) = R(i, j) + t; } }
void AddMultADBt(const DenseMatrix &A, const Vector &D, const DenseMatrix &B, DenseMatrix &R) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * D(k) * B(j, k); R(i, j) = R(i, j) + t; } }
void AddMult_a_ABt(double a, const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &R) { MFEM_VERIFY(A.Height() == R.Height() && B.Height() == R.Width() && A.Width() == B.Width(), "incompatible dimensions"); for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * B(j, k); R(i, j) = R(i, j) + a * t; } }
void MultAtB(const DenseMatrix &A, const DenseMatrix &B, DenseMatrix &R) { MFEM_VERIFY(A.Width() == R.Height() && B.Width() == R.Width() && A.Height() == B.Height(), "incompatible dimensions"); for (int i = 0; i < A.Width(); i++) for (int j = 0; j < B.Width(); j++) { double t = 0; for (int k = 0; k < A.Height(); k++) t += A(k, i) * B(k, j); R(i, j) = t; } }
void AddMult_a_AAt(double a, const DenseMatrix &A, DenseMatrix &R) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < A.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * A(j, k); R(i, j) = R(i, j) + a * t; } }
void Mult_a_AAt(double a, const DenseMatrix &A, DenseMatrix &R) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < A.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * A(j, k); R(i, j) = a * t; } }
void MultVVt(const Vector &v, DenseMatrix &R) { for (int i = 0; i < v.Size(); i++) for (int j = 0; j <= i; j++) R(i, j) = R(j, i) = v(i) * v(j); }
void MultVWt(const Vector &v, const Vector &w, DenseMatrix &R) { for (int i = 0; i < v.Size(); i++) for (int j = 0; j < w.Size(); j++) R(i, j) = v(i) * w(j); }
void AddMultVWt(const Vector &v, const Vector &w, DenseMatrix &R) { MFEM_VERIFY(v.Size() == R.Height() && w.Size() == R.Width(), "incompatible dimensions"); for (int i = 0; i < v.Size(); i++) for (int j = 0; j < w.Size(); j++) R(i, j) = R(i, j) + v(i) * w(j); }
void AddMultVVt(const Vector &v, DenseMatrix &R) { for (int i = 0; i < v.Size(); i++) for (int j = 0; j < v.Size(); j++) R(i, j) = R(i, j) + v(i) * v(j); }
void AddMult_a_VWt(const double a, const Vector &v, const Vector &w, DenseMatrix &R) { MFEM_VERIFY(v.Size() == R.Height() && w.Size() == R.Width(), "incompatible dimensions"); for (int j = 0; j < w.Size(); j++) { const double awj = a * w(j); for (int i = 0; i < v.Size(); i++) R(i, j) = R(i, j) + v(i) * awj; } }
void AddMult_a_VVt(const double a, const Vector &v, DenseMatrix &R) { for (int i = 0; i < v.Size(); i++) { const double av = a * v(i); for (int j = 0; j < v.Size(); j++) R(i, j) = R(i, j) + av * v(j); } }
void RAP(const DenseMatrix &A, const DenseMatrix &P, DenseMatrix &R) { DenseMatrix t(P.Width(), A.Width()); MultAtB(P, A, t); R.SetSize(t.Height(), P.Width()); Mult(t, P, R); }
void RAP(const DenseMatrix &Rt, const DenseMatrix &A, const DenseMatrix &P, DenseMatrix &R) { DenseMatrix t(Rt.Width(), A.Width()); MultAtB(Rt, A, t); R.SetSize(t.Height(), P.Width()); Mult(t, P, R); }
void DenseTensor::AddMult(const Table &elem_dof, const Vector &x, Vector &y) const
{
   for (int e = 0; e < SizeK(); e++) { Array<int> d; elem_dof.GetRow(e, d); Vector xe, ye(SizeI()); x.GetSubVector(d, xe); const_cast<DenseTensor &>(*this)(e).Mult(xe, ye); y.AddElementVector(d, ye); }
}
// DenseMatrixInverse keeps an LU (or Cholesky) factorisation; here the "factor" is the explicit inverse.
void DenseMatrixInverse::Factor() { const int s = width * width; for (int i = 0; i < s; i++) factors->data[i] = (i % width == i / width) ? 1.0 : 0.0; gauss_inv(width, std::vector<double>(a->GetData(), a->GetData() + s), factors->data, width); }
void DenseMatrixInverse::Mult(const double *x, double *y) const { std::vector<double> t(width); for (int i = 0; i < width; i++) { double s = 0; for (int j = 0; j < width; j++) s += factors->data[i + width * j] * x[j]; t[i] = s; } for (int i = 0; i < width; i++) y[i] = t[i]; }
void DenseMatrixInverse::Mult(const Vector &x, Vector &y) const { Mult(x.HostRead(), y.HostWrite()); }
void DenseMatrixInverse::Mult(const DenseMatrix &B, DenseMatrix &X) const { X.SetSize(B.Height(), B.Width()); for (int j = 0; j < B.Width(); j++) Mult(B.GetData() + j * B.Height(), X.GetData() + j * B.Height()); }
void DenseMatrixInverse::GetInverseMatrix(DenseMatrix &Ainv) const { Ainv.SetSize(width); for (int i = 0; i < width * width; i++) Ainv.GetData()[i] = factors->data[i]; }

// ------------------------------------------------------------------ SparseMatrix
void SparseMatrix::AddMult(const Vector &x, Vector &y, const double a) const
{
   MFEM_VERIFY(width == x.Size() && height == y.Size(), "incompatible dimensions");
   const double *xp = x.HostRead(); double *yp = y.HostReadWrite();
   if (A.Empty())
   {
      for (int i = 0; i < height; i++) { double s = 0; for (RowNode *n = Rows[i]; n; n = n->Prev) s += n->Value * xp[n->Column]; yp[i] = yp[i] + a * s; }
      return;
   }
   for (int i = 0; i < height; i++) { double s = 0; for (int k = I[i]; k < I[i + 1]; k++) s += A[k] * xp[J[k]]; yp[i] = yp[i] + a * s; }
}
void SparseMatrix::Mult(const Vector &x, Vector &y) const { y = 0.0; AddMult(x, y, 1.0); }
void SparseMatrix::MultTranspose(const Vector &x, Vector &y) const { y = 0.0; AddMultTranspose(x, y, 1.0); }
void SparseMatrix::AddMultTranspose(const Vector &x, Vector &y, const double a) const
{
   MFEM_VERIFY(height == x.Size() && width == y.Size(), "incompatible dimensions");
   const double *xp = x.HostRead(); double *yp = y.HostReadWrite();
   if (A.Empty())
   {
      for (int i = 0; i < height; i++) { const double ax = a * xp[i]; for (RowNode *n = Rows[i]; n; n = n->Prev) yp[n->Column] = yp[n->Column] + n->Value * ax; }
      return;
   }
   for (int i = 0; i < height; i++) { const double ax = a * xp[i]; for (int k = I[i]; k < I[i + 1]; k++) yp[J[k]] = yp[J[k]] + A[k] * ax; }
}
void SparseMatrix::PartMult(const Array<int> &rows, const Vector &x, Vector &y) const { for (int i = 0; i < rows.Size(); i++) { int r = rows[i]; double a = 0; for (int k = I[r]; k < I[r + 1]; k++) a += A[k] * x(J[k]); y(r) = a; } }
void SparseMatrix::PartAddMult(const Array<int> &rows, const Vector &x, Vector &y, const double c) const { for (int i = 0; i < rows.Size(); i++) { int r = rows[i]; double v = 0; for (int k = I[r]; k < I[r + 1]; k++) v += A[k] * x(J[k]); y(r) = y(r) + v * c; } }
double SparseMatrix::InnerProduct(const Vector &x, const Vector &y) const { Vector t(height); Mult(x, t); return t * y; }
void SparseMatrix::GetRowSums(Vector &x) const { for (int i = 0; i < height; i++) { double a = 0; if (A.Empty()) for (RowNode *n = Rows[i]; n; n = n->Prev) a += n->Value; else for (int k = I[i]; k < I[i + 1]; k++) a += A[k]; x(i) = a; } }
void SparseMatrix::Set(const int i, const int j, const double val) { SearchRow(i, j) = val; }
void SparseMatrix::Add(const int i, const int j, const double val) { double &r = SearchRow(i, j); r = r + val; }
void SparseMatrix::AddSubMatrix(const Array<int> &rows, const Array<int> &cols, const DenseMatrix &subm, int skip_zeros)
{
   for (int i = 0; i < rows.Size(); i++)
   {
      int gi = rows[i], s = 1; if (gi < 0) { gi = -1 - gi; s = -1; }
      MFEM_VERIFY(gi < height, "Trying to insert a row " << gi << " outside the matrix height " << height);
      SetColPtr(gi);
      for (int j = 0; j < cols.Size(); j++)
      {
         int gj = cols[j], t = s; if (gj < 0) { gj = -1 - gj; t = -s; }
         MFEM_VERIFY(gj < width, "Trying to insert a column " << gj << " outside the matrix width " << width);
         double a = subm(i, j);
         if (skip_zeros && czero(a)) { if (skip_zeros == 2 || &rows != &cols || czero(subm(j, i))) continue; }
         if (t < 0) a = -a;
         double &r = SearchRow(gj); r = r + a;
      }
      ClearColPtr();
   }
}
void SparseMatrix::SetSubMatrix(const Array<int> &rows, const Array<int> &cols, const DenseMatrix &subm, int skip_zeros)
{
   for (int i = 0; i < rows.Size(); i++)
   {
      int gi = rows[i], s = 1; if (gi < 0) { gi = -1 - gi; s = -1; }
      SetColPtr(gi);
      for (int j = 0; j < cols.Size(); j++)
      {
         double a = subm(i, j);
         if (skip_zeros && czero(a)) continue;
         int gj = cols[j], t = s; if (gj < 0) { gj = -1 - gj; t = -s; }
         if (t < 0) a = -a;
         SearchRow(gj) = a;
      }
      ClearColPtr();
   }
}
void SparseMatrix::AddRow(const int row, const Array<int> &cols, const Vector &srow) { for (int j = 0; j < cols.Size(); j++) { int gj = cols[j]; double v = srow(j); if (gj < 0) { gj = -1 - gj; v = -v; } if (czero(v)) continue; double &r = SearchRow(row, gj); r = r + v; } }
void SparseMatrix::ScaleRow(const int row, const double scale) { if (Rows) for (RowNode *n = Rows[row]; n; n = n->Prev) n->Value = n->Value * scale; else for (int k = I[row]; k < I[row + 1]; k++) A[k] = A[k] * scale; }
void SparseMatrix::ScaleRows(const Vector &sl) { for (int i = 0; i < height; i++) ScaleRow(i, sl(i)); }
void SparseMatrix::ScaleColumns(const Vector &sr) { if (Rows) { for (int i = 0; i < height; i++) for (RowNode *n = Rows[i]; n; n = n->Prev) n->Value = n->Value * sr(n->Column); } else for (int k = 0; k < I[height]; k++) A[k] = A[k] * sr(J[k]); }
SparseMatrix &SparseMatrix::operator*=(double a) { if (!Rows) { int nnz = I[height]; for (int j = 0; j < nnz; j++) A[j] = A[j] * a; } else for (int i = 0; i < height; i++) for (RowNode *n = Rows[i]; n; n = n->Prev) n->Value = n->Value * a; return *this; }
SparseMatrix &SparseMatrix::operator+=(const SparseMatrix &B)
{
   for (int i = 0; i < height; i++)
   {
      SetColPtr(i);
      if (B.Rows) { for (RowNode *n = B.Rows[i]; n; n = n->Prev) { double &r = SearchRow(n->Column); r = r + n->Value; } }
      else for (int j = B.I[i]; j < B.I[i + 1]; j++) { double &r = SearchRow(B.J[j]); r = r + B.A[j]; }
      ClearColPtr();
   }
   return *this;
}
void SparseMatrix::Add(const double a, const SparseMatrix &B)
{
   for (int i = 0; i < height; i++)
   {
      B.SetColPtr(i);
      if (Rows) { for (RowNode *n = Rows[i]; n; n = n->Prev) n->Value = n->Value + a * B._Get_(n->Column); }
      else for (int j = I[i]; j < I[i + 1]; j++) A[j] = A[j] + a * B._Get_(J[j]);
      B.ClearColPtr();
   }
}
void SparseMatrix::Finalize(int skip_zeros, bool fix_empty_rows)
{
   if (Finalized()) return;
   delete[] ColPtrNode; ColPtrNode = NULL;
   I.New(height + 1); I[0] = 0;
   for (int i = 1; i <= height; i++)
   {
      int nr = 0;
      for (RowNode *n = Rows[i - 1]; n; n = n->Prev)
      {
         if (skip_zeros && czero(n->Value)) { if (skip_zeros == 2 || n->Column != i - 1) continue; }
         nr++;
      }
      if (fix_empty_rows && !nr) nr = 1;
      I[i] = I[i - 1] + nr;
   }
   int nz = I[height];
   J.New(nz); A.New(nz);
   // as the library does: by row, list order
   for (int i = 0, j = 0; i < height; i++)
   {
      int nr = 0;
      for (RowNode *n = Rows[i]; n; n = n->Prev)
      {
         if (skip_zeros && czero(n->Value)) { if (skip_zeros == 2 || n->Column != i) continue; }
         A[j] = n->Value; J[j] = n->Column; j++; nr++;
      }
      if (fix_empty_rows && !nr) { A[j] = 0.0; J[j] = i; j++; }
   }
#ifdef MFEM_USE_MEMALLOC
   delete NodesMem; NodesMem = NULL;
#else
   for (int i = 0; i < height; i++) { RowNode *n = Rows[i]; while (n) { RowNode *p = n; n = n->Prev; delete p; } }
#endif
   delete[] Rows; Rows = NULL;
}
void SparseMatrix::ToDenseMatrix(DenseMatrix &B) const
{
   B.SetSize(height, width);
   B = 0.0;
   for (int r = 0; r < height; r++)
      if (A.Empty()) { for (RowNode *n = Rows[r]; n; n = n->Prev) B(r, n->Column) = n->Value; }
      else for (int k = I[r]; k < I[r + 1]; k++) B(r, J[k]) = A[k];
}
DenseMatrix *SparseMatrix::ToDenseMatrix() const { DenseMatrix *B = new DenseMatrix; ToDenseMatrix(*B); return B; }
void Add(const SparseMatrix &A, double alpha, DenseMatrix &B) { const int *I = A.GetI(), *J = A.GetJ(); const double *d = A.GetData(); for (int i = 0; i < A.Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) B(i, J[k]) = B(i, J[k]) + alpha * d[k]; }
SparseMatrix *Add(double a, const SparseMatrix &A, double b, const SparseMatrix &B)
{
   SparseMatrix *C = new SparseMatrix(A.Height(), A.Width());
   const int *I = A.GetI(), *J = A.GetJ(); const double *d = A.GetData();
   for (int i = 0; i < A.Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) C->Add(i, J[k], a * d[k]);
   I = B.GetI(); J = B.GetJ(); d = B.GetData();
   for (int i = 0; i < B.Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) C->Add(i, J[k], b * d[k]);
   C->Finalize(0);
   return C;
}
SparseMatrix *Add(const SparseMatrix &A, const SparseMatrix &B) { return Add(1.0, A, 1.0, B); }
SparseMatrix *Mult(const SparseMatrix &A, const SparseMatrix &B, SparseMatrix *OAB)
{
   MFEM_VERIFY(A.Width() == B.Height(), "incompatible"); MFEM_VERIFY(!OAB, "unmodelled");
   SparseMatrix *C = new SparseMatrix(A.Height(), B.Width());
   const int *I = A.GetI(), *J = A.GetJ(), *K = B.GetI(), *L = B.GetJ(); const double *a = A.GetData(), *b = B.GetData();
   for (int i = 0; i < A.Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) for (int l = K[J[k]]; l < K[J[k] + 1]; l++) C->Add(i, L[l], a[k] * b[l]);
   C->Finalize(0);
   return C;
}
DenseMatrix *Mult(const SparseMatrix &A, DenseMatrix &B)
{
   DenseMatrix *C = new DenseMatrix(A.Height(), B.Width());
   Vector x, y;
   for (int j = 0; j < B.Width(); j++) { B.GetColumnReference(j, x); C->GetColumnReference(j, y); A.Mult(x, y); }
   return C;
}
DenseMatrix *RAP(const SparseMatrix &A, DenseMatrix &P) { DenseMatrix *AP = mfem::Mult(A, P); DenseMatrix *r = new DenseMatrix(P.Width(), P.Width()); MultAtB(P, *AP, *r); delete AP; return r; }
SparseMatrix *RAP(const SparseMatrix &A, const SparseMatrix &R, SparseMatrix *o) { MFEM_VERIFY(!o, "unmodelled"); SparseMatrix *P = Transpose(R), *AP = Mult(A, *P, NULL), *r = Mult(R, *AP, NULL); delete P; delete AP; return r; }
SparseMatrix *RAP(const SparseMatrix &Rt, const SparseMatrix &A, const SparseMatrix &P) { SparseMatrix *R = Transpose(Rt), *AP = Mult(A, P, NULL), *r = Mult(*R, *AP, NULL); delete R; delete AP; return r; }
double SparseMatrix::MaxNorm() const { double m = 0; if (A.Empty()) { for (int i = 0; i < height; i++) for (RowNode *n = Rows[i]; n; n = n->Prev) { double a = fabs(n->Value); if (a > m) m = a; } } else for (int k = 0; k < I[height]; k++) { double a = fabs(A[k]); if (a > m) m = a; } return m; }
int SparseMatrix::CheckFinite() const { return 0; }

// ------------------------------------------------------------------ block operators
void BlockMatrix::AddMult(const Vector &x, Vector &y, const double val) const
{
   MFEM_VERIFY(x.Size() == width && y.Size() == height, "incompatible sizes");
   for (int i = 0; i < nRowBlocks; i++) for (int j = 0; j < nColBlocks; j++) if (Aij(i, j))
   {
      Vector xb(const_cast<double *>(x.HostRead()) + col_offsets[j], col_offsets[j + 1] - col_offsets[j]), yb(y.HostReadWrite() + row_offsets[i], row_offsets[i + 1] - row_offsets[i]);
      Aij(i, j)->AddMult(xb, yb, val);
   }
}
void BlockMatrix::Mult(const Vector &x, Vector &y) const { MFEM_VERIFY(x.GetData() != y.GetData(), "x and y can't point to the same data"); y = 0.0; AddMult(x, y, 1.0); }
void BlockMatrix::AddMultTranspose(const Vector &x, Vector &y, const double val) const
{
   for (int i = 0; i < nRowBlocks; i++) for (int j = 0; j < nColBlocks; j++) if (Aij(i, j))
   {
      Vector xb(const_cast<double *>(x.HostRead()) + row_offsets[i], row_offsets[i + 1] - row_offsets[i]), yb(y.HostReadWrite() + col_offsets[j], col_offsets[j + 1] - col_offsets[j]);
      Aij(i, j)->AddMultTranspose(xb, yb, val);
   }
}
void BlockMatrix::MultTranspose(const Vector &x, Vector &y) const { y = 0.0; AddMultTranspose(x, y, 1.0); }
void BlockOperator::Mult(const Vector &x, Vector &y) const
{
   MFEM_VERIFY(x.Size() == width && y.Size() == height, "incompatible sizes");
   y = 0.0;
   for (int i = 0; i < nRowBlocks; i++) for (int j = 0; j < nColBlocks; j++) if (op(i, j))
   {
      Vector xb(const_cast<double *>(x.HostRead()) + col_offsets[j], col_offsets[j + 1] - col_offsets[j]), yb(y.HostReadWrite() + row_offsets[i], row_offsets[i + 1] - row_offsets[i]), t(yb.Size());
      op(i, j)->Mult(xb, t);
      yb.Add(coef(i, j), t);
   }
}
void BlockOperator::MultTranspose(const Vector &x, Vector &y) const
{
   y = 0.0;
   for (int i = 0; i < nRowBlocks; i++) for (int j = 0; j < nColBlocks; j++) if (op(i, j))
   {
      Vector xb(const_cast<double *>(x.HostRead()) + row_offsets[i], row_offsets[i + 1] - row_offsets[i]), yb(y.HostReadWrite() + col_offsets[j], col_offsets[j + 1] - col_offsets[j]), t(yb.Size());
      op(i, j)->MultTranspose(xb, t);
      yb.Add(coef(i, j), t);
   }
}
} // namespace mfem
