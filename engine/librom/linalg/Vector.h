#ifndef SX_LIBROM_VECTOR_H
#define SX_LIBROM_VECTOR_H
#include <cassert>
#include <cmath>
#include <functional>
#include <memory>
#include <vector>
#include <string>
namespace CAROM {
class Vector;
// where a norm is only reported, a harness may replace it
namespace model { inline std::function<double(const Vector &)> &norm() { static std::function<double(const Vector &)> f; return f; } }
class Vector {
   std::vector<double> d_;
   bool dist_ = false;
public:
   Vector() {}
   Vector(int dim, bool distributed) : d_(dim), dist_(distributed) {}
   Vector(double *v, int dim, bool distributed, bool = true) : d_(v, v + dim), dist_(distributed) {}
   void setSize(int dim) { d_.resize(dim); }
   bool distributed() const { return dist_; }
   int dim() const { return (int) d_.size(); }
   const double &item(int i) const { assert(0 <= i && i < dim()); return d_[i]; }
   double &item(int i) { assert(0 <= i && i < dim()); return d_[i]; }
   const double &operator()(int i) const { return item(i); }
   double &operator()(int i) { return item(i); }
   double *getData() const { return const_cast<double *>(d_.data()); }
   double inner_product(const Vector &o) const { assert(dim() == o.dim()); double s = 0.; for (int i = 0; i < dim(); i++) s += d_[i] * o.d_[i]; return s; }
   double norm2() const { return inner_product(*this); }
   double norm() const { return model::norm() ? model::norm()(*this) : std::sqrt(norm2()); }
   Vector &operator+=(const Vector &o) { assert(dim() == o.dim()); for (int i = 0; i < dim(); i++) d_[i] += o.d_[i]; return *this; }
   Vector &operator-=(const Vector &o) { assert(dim() == o.dim()); for (int i = 0; i < dim(); i++) d_[i] -= o.d_[i]; return *this; }
   Vector &operator=(double a) { for (double &x : d_) x = a; return *this; }
   Vector &operator*=(double a) { for (double &x : d_) x *= a; return *this; }
};
}
#endif
