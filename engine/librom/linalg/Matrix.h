#ifndef SX_LIBROM_MATRIX_H
#define SX_LIBROM_MATRIX_H
#include "Vector.h"
namespace CAROM {
class Matrix {   // row-major
   std::vector<double> d_;
   int r_ = 0, c_ = 0;
   bool dist_ = false;
public:
   Matrix() {}
   Matrix(int rows, int cols, bool distributed, bool = false) : d_((size_t) rows * cols), r_(rows), c_(cols), dist_(distributed) {}
   Matrix(double *m, int rows, int cols, bool distributed, bool = true) : d_(m, m + (size_t) rows * cols), r_(rows), c_(cols), dist_(distributed) {}
   void setSize(int rows, int cols) { r_ = rows; c_ = cols; d_.resize((size_t) rows * cols); }
   bool distributed() const { return dist_; }
   int numRows() const { return r_; }
   int numColumns() const { return c_; }
   int numDistributedRows() const { return r_; }
   void gather() { assert(dist_); dist_ = false; }
   void distribute(int rows) { assert(!dist_ && rows == r_); dist_ = true; }
   const double &item(int i, int j) const { assert(0 <= i && i < r_ && 0 <= j && j < c_); return d_[(size_t) i * c_ + j]; }
   double &item(int i, int j) { assert(0 <= i && i < r_ && 0 <= j && j < c_); return d_[(size_t) i * c_ + j]; }
   const double &operator()(int i, int j) const { return item(i, j); }
   double &operator()(int i, int j) { return item(i, j); }
   double *getData() const { return const_cast<double *>(d_.data()); }
   Matrix &operator=(double a) { for (double &x : d_) x = a; return *this; }
   void mult(const Vector &x, Vector &y) const {
      assert(x.dim() == c_);
      y.setSize(r_);
      for (int i = 0; i < r_; i++) { double s = 0.; for (int j = 0; j < c_; j++) s += item(i, j) * x.item(j); y.item(i) = s; }
   }
   void mult(const Matrix &b, Matrix &o) const {
      assert(b.r_ == c_);
      o.setSize(r_, b.c_);
      for (int i = 0; i < r_; i++) for (int k = 0; k < b.c_; k++) { double s = 0.; for (int j = 0; j < c_; j++) s += item(i, j) * b.item(j, k); o.item(i, k) = s; }
   }
   void transposeMult(const Vector &x, Vector &y) const {
      assert(x.dim() == r_);
      y.setSize(c_);
      for (int j = 0; j < c_; j++) { double s = 0.; for (int i = 0; i < r_; i++) s += item(i, j) * x.item(i); y.item(j) = s; }
   }
   void transposeMult(const Matrix &b, Matrix &o) const {
      assert(b.r_ == r_);
      o.setSize(c_, b.c_);
      for (int j = 0; j < c_; j++) for (int k = 0; k < b.c_; k++) { double s = 0.; for (int i = 0; i < r_; i++) s += item(i, j) * b.item(i, k); o.item(j, k) = s; }
   }
   Vector *getColumn(int j) const { Vector *v = new Vector(r_, dist_); for (int i = 0; i < r_; i++) v->item(i) = item(i, j); return v; }
   void getColumn(int j, Vector &v) const { v.setSize(r_); for (int i = 0; i < r_; i++) v.item(i) = item(i, j); }
   std::shared_ptr<const Matrix> getFirstNColumns(int n) const {
      assert(n <= c_);
      auto m = std::make_shared<Matrix>(r_, n, dist_);
      for (int i = 0; i < r_; i++) for (int j = 0; j < n; j++) m->item(i, j) = item(i, j);
      return m;
   }
};
}
#endif
