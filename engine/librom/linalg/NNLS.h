#ifndef SX_LIBROM_NNLS_H
#define SX_LIBROM_NNLS_H
#include "Matrix.h"
#include <functional>
namespace CAROM {
enum class NNLS_termination { L2, LINF };
namespace model {
// the non-negative least squares solution, given the system
inline std::function<void(const Matrix &, const Vector &, const Vector &, Vector &)> &nnls() {
   static std::function<void(const Matrix &, const Vector &, const Vector &, Vector &)> f;
   return f;
}
inline NNLS_termination &criterion() { static NNLS_termination c = NNLS_termination::LINF; return c; }   // asked of the last solve
}
class NNLSSolver {
   NNLS_termination c_;
public:
   NNLSSolver(double = 1e-14, int = 5, int = 0, int = 0, double = 1e-4, double = 1e-14, int = 100000, int = 100000, NNLS_termination c = NNLS_termination::LINF) : c_(c) {}
   void normalize_constraints(Matrix &, Vector &, Vector &) { assert(!"not modelled"); }
   void solve_parallel_with_scalapack(const Matrix &m, const Vector &lb, const Vector &ub, Vector &sol) {
      assert(lb.dim() == m.numColumns() && ub.dim() == m.numColumns() && sol.dim() == m.numRows());
      model::criterion() = c_;
      model::nnls()(m, lb, ub, sol);
   }
};
}
#endif
