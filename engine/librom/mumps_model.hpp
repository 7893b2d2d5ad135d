// MFEM is installed without MUMPS: a direct solver given by the check
#ifndef SX_MUMPS_MODEL_H
#define SX_MUMPS_MODEL_H
#include "mfem.hpp"
#ifndef MFEM_USE_MUMPS
#include <functional>
namespace mfem {
class MUMPSSolver : public Solver {
public:
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_INDEFINITE = 1, SYMMETRIC_POSITIVE_DEFINITE = 2 };
   MatType type = UNSYMMETRIC;
   const Operator *op = NULL;
   static std::function<void(const MUMPSSolver &, const Vector &, Vector &)> &solve() { static std::function<void(const MUMPSSolver &, const Vector &, Vector &)> f; return f; }
   MUMPSSolver() {}
   MUMPSSolver(MPI_Comm) {}
   void SetOperator(const Operator &o) override { op = &o; height = o.Height(); width = o.Width(); }
   void Mult(const Vector &x, Vector &y) const override { solve()(*this, x, y); }
   void SetPrintLevel(int) {}
   void SetMatrixSymType(MatType t) { type = t; }
};
}
#endif
#endif
