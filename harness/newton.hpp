// Newton's method is MFEM's: what matters is the residual and the Jacobian it is given and what is done with its answer
#pragma once
#include "asked.hpp"
struct Newton { const Operator *op = nullptr; Solver *prec = nullptr; S who; Vector b, x0, x; double rtol = -1, atol = -1; int maxit = -1, times = 0; bool fromGuess = false; };
static Newton newton; static bool newtonConverged = true;
static std::function<void(const Operator &, Solver &)> inspect;                     // while the residual operator exists
static std::function<double(int)> newtonAnswer;
#define NEWTON(C) void mfem::C::Mult(const Vector &b, Vector &x) const { newton.op = oper; newton.prec = prec; newton.who = #C; newton.b = b; newton.x0 = x; newton.rtol = rel_tol; newton.atol = abs_tol; newton.maxit = max_iter; newton.fromGuess = iterative_mode; newton.times++; if (inspect) inspect(*oper, *prec); for (int i = 0; i < x.Size(); i++) x[i] = newtonAnswer(i); newton.x = x; converged = newtonConverged; }
NEWTON(NewtonSolver) NEWTON(LBFGSSolver)
static Redirect redirectNewton{"_ZNK4mfem12NewtonSolver4MultERKNS_6VectorERS1_", "_ZNK4mfem11LBFGSSolver4MultERKNS_6VectorERS1_"};
[[maybe_unused]] static DenseMatrix denseOp(const Operator &op)
{
   auto it = parallelOf.find(&op); if (it != parallelOf.end()) return dense(*it->second);
   if (auto *s = dynamic_cast<const SparseMatrix *>(&op)) return dense(*s);
   sx::check(false, "kind of Jacobian"); return DenseMatrix(op.Height(), op.Width());
}
