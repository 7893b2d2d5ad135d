// The iterative and direct solvers are MFEM's: what matters is the system they are given and what is done with their answer
#pragma once
#include "h.hpp"
#include "mumps_model.hpp"
#include "redirect.hpp"
#include <functional>
#include <map>
struct Asked { const Operator *op = nullptr; const Solver *prec = nullptr; S who; Vector b, x0, x; double rtol = -1, atol = -1; int maxit = -1, times = 0, type = -1; };
static Asked asked;
static std::function<double(int)> answer;
static bool answerConverged = true;
static void record(const S &who, const Operator *op, const Solver *prec, const Vector &b, Vector &x) { asked.who = who; asked.op = op; asked.prec = prec; asked.b = b; asked.x0 = x; asked.times++; for (int i = 0; i < x.Size(); i++) x[i] = answer(i); asked.x = x; }
#define SOLVER(C) void mfem::C::Mult(const Vector &b, Vector &x) const { asked.rtol = rel_tol; asked.atol = abs_tol; asked.maxit = max_iter; record(#C, oper, prec, b, x); converged = answerConverged; }
SOLVER(CGSolver) SOLVER(MINRESSolver) SOLVER(GMRESSolver)
static Redirect redirect{"_ZNK4mfem8CGSolver4MultERKNS_6VectorERS1_", "_ZNK4mfem12MINRESSolver4MultERKNS_6VectorERS1_", "_ZNK4mfem11GMRESSolver4MultERKNS_6VectorERS1_"};
static std::map<const Operator *, SparseMatrix *> parallelOf;
mfem::HypreParMatrix::HypreParMatrix(MPI_Comm, HYPRE_BigInt n, HYPRE_BigInt *s, SparseMatrix *a) { Init(); height = width = n; sx::check(s[0] == 0 && s[1] == n && a->Height() == n && a->Width() == n, "partition of the system"); parallelOf[this] = a; }
static std::map<const Solver *, const Operator *> amgOf;
mfem::HypreBoomerAMG::HypreBoomerAMG(const HypreParMatrix &A) : HypreSolver(&A) { HYPRE_BoomerAMGCreate(&amg_precond); amgOf[this] = &A; }
static void directSolver() { MUMPSSolver::solve() = [](const MUMPSSolver &m, const Vector &b, Vector &x) { asked.type = m.type; record("MUMPS", m.op, nullptr, b, x); }; }
