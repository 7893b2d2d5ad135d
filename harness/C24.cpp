// Steady Navier-Stokes flow: the residual and the Jacobian given to Newton's method are those of the undecomposed problem, and its answer becomes the solution
#include "convect.hpp"
#include "steady_ns_solver.hpp"
#include "sample_generator.hpp"
#include "newton.hpp"
struct ONS : public SteadyNSSolver { using SteadyNSSolver::RHS; using SteadyNSSolver::U; using SteadyNSSolver::us; using SteadyNSSolver::fes; using SteadyNSSolver::numSub; using SteadyNSSolver::var_offsets; using SteadyNSSolver::domain_offsets; using SteadyNSSolver::M; using SteadyNSSolver::B; using SteadyNSSolver::u_offsets; using SteadyNSSolver::p_offsets; using SteadyNSSolver::pres_dbc; using SteadyNSSolver::ufes; using SteadyNSSolver::pfes; };
struct Gen : public SampleGenerator { Gen() : SampleGenerator(MPI_COMM_WORLD) {} using SampleGenerator::snapshot_generators; using SampleGenerator::basis_tags; };
static const S KINDS[] = {"DZND", "N-DZ", "DZDD"}, MENTIONED[] = {"DZND", "NNDZ", "DZDD"};           // the fluxes ask for a type on every boundary
static void setup(World2 &w, bool lf, bool direct, const S &solver, double zeta, const S &more = "")
{
   w.configure("solver: {max_iter: 17, relative_tolerance: 0.5, absolute_tolerance: 0.25, jacobian: {max_iter: 19, relative_tolerance: 0.375, absolute_tolerance: 0.125}, use_amg: false, direct_solve: " + S(direct ? "true" : "false") + solver + "}, navier-stokes: {operator-type: " + S(lf ? "lf" : "base") + "}, save_solution: {enabled: true, file_path: {directory: ., prefix: sol}}, sample_generation: {file_path: {prefix: snap}, maximum_number_of_snapshots: 3, parameters: [{key: a, type: double, minimum: 0.0, maximum: 1.0, sample_size: 2}]}" + more);
   w.setReal("navier-stokes", "zeta", nullptr, zeta); asked = Asked(); newton = Newton(); answerConverged = true; answer = [](int i) { return sx::real("correction" + I(i)); }; newtonAnswer = [](int i) { return sx::real("answer" + I(i)); }; directSolver(); inspect = nullptr; newtonConverged = true;
}
template <class Sol> static void prepare(Sol &s, Prob &p) { s.InitVariables(); s.SetParameterizedProblem(&p); s.BuildOperators(); s.SetupBCOperators(); s.Assemble(); }
static double base(int i, int turn) { return 0.75 + 0.2 * std::sin(1.7 * i + 2.3 * turn); }             // away from rest
static void operators(int kind, bool lf, bool allSymbolic)
{
   const int sc = sx::choose("scenario", 0, 2), part = sx::choose("partition", 0, 2) * 2; const bool dg = sc < 2 && sx::choose("full dg", 0, 1), direct = lf ? (sc + part / 2) % 2 : sx::choose("direct", 0, 1); const S k = lf ? MENTIONED[sc] : KINDS[sc]; World2 w(kind, partOf(part), 1, dg); const double zeta = lf ? 1.25 : sx::real("zeta", 0.5, 2); setup(w, lf, direct, "", zeta); data(); function_factory::flow_problem::nu = sx::real("nu", 0.5, 2); Prob p(k, sc, true); balanced(p); ONS s; prepare(s, p);
   Parent pu(w, 2, 2); for (int m = 0; m < s.numSub; m++) pu.add(s.ufes[m]); Convection C(w, pu, lf, k, zeta); const int nu = s.u_offsets.Last(), np = s.p_offsets.Last(); DenseMatrix M = dense(*s.M), B = dense(*s.B); const S l = lf ? "Lax-Friedrichs" : "convection";
   bool seen = false; inspect = [&](const Operator &op, Solver &prec) {
      seen = true; sx::check(op.Height() == nu + np && op.Width() == nu + np, l + ": size of the residual"); Vector x(nu + np), y(nu + np); for (int i = 0; i < x.Size(); i++) x[i] = base(i, 1); y = 3.0; op.Mult(x, y); op.GetGradient(x);                        // what was done before must not matter
      for (int i = 0; i < x.Size(); i++) x[i] = allSymbolic && i % 3 == 0 ? sx::real("x" + I(i)) : base(i, 2); if (!allSymbolic) for (int i : {nu / 2 + 1, nu - 1, nu + np / 2}) x[i] += sx::real("x" + I(i), -0.01, 0.01);
      Vector x0(x), xu(nu), z(nu + np); for (int i = 0; i < nu; i++) xu[i] = x[i]; y = 5.0; op.Mult(x, y); eqv(x, x0, l + ": state kept"); Vector n = C.value(xu); z = 0.0; for (int i = 0; i < nu; i++) { z[i] = n[i]; for (int j = 0; j < nu; j++) z[i] += M(i, j) * x[j]; for (int j = 0; j < np; j++) z[i] += B(j, i) * x[nu + j]; } for (int i = 0; i < np; i++) for (int j = 0; j < nu; j++) z[nu + i] += B(i, j) * x[j]; eqv(y, z, l + ": residual");
      Operator &J = op.GetGradient(x); eqv(x, x0, l + ": state kept"); Vector r(nu + np), c(nu + np); for (int i = 0; i < r.Size(); i++) { r[i] = base(i, 5); c[i] = 0.0; } prec.SetOperator(J); prec.Mult(r, c); eqv(asked.b, r, l + ": right-hand side of the correction"); for (int i = 0; i < c.Size(); i++) sx::eq(c[i], answer(i), l + ": correction");
      sx::check(asked.times == 1 && asked.who == (direct ? "MUMPS" : "GMRESSolver"), l + ": solver of the corrections"); if (direct) sx::check(asked.type == MUMPSSolver::UNSYMMETRIC, l + ": the Jacobian is unsymmetric"); else sx::check(asked.rtol == 0.375 && asked.atol == 0.125 && asked.maxit == 19, l + ": tolerances of the corrections");
      if (!asked.op) { sx::check(false, l + ": Jacobian"); return; } DenseMatrix D = denseOp(*asked.op), K = C.slope(xu), E(nu + np); E = 0.0; for (int i = 0; i < nu; i++) for (int j = 0; j < nu; j++) E(i, j) = M(i, j) + K(i, j); for (int i = 0; i < np; i++) for (int j = 0; j < nu; j++) E(nu + i, j) = E(j, nu + i) = B(i, j); eqm(D, E, l + ": Jacobian"); };
   s.Solve(nullptr); inspect = nullptr; sx::check(seen && newton.times == 1, l + ": Newton's method is used once");
}
SX_CASE(convection_triangles) { operators(1, false, true); }
SX_CASE(convection_quads) { operators(0, false, false); }
SX_CASE(lax_friedrichs_triangles) { operators(1, true, false); }
// what Newton's method starts from, and what becomes of its answer
SX_CASE(solve)
{
   const int part = sx::choose("partition", 0, 2) * 2; const bool level = sx::choose("pressure level free", 0, 1), lbfgs = sx::choose("lbfgs", 0, 1), restart = sx::choose("restart", 0, 1), sampler = sx::choose("sampling", 0, 1), conv = sx::choose("converges", 0, 1), lf = part == 2; const S k = level ? "DZDD" : "DZND", l = "steady flow";
   World2 w(1, partOf(part), 1, false); S so; if (lbfgs) so += ", use_lbfgs: true"; if (restart) so += ", use_restart: true, restart_file: start.h5"; setup(w, lf, restart, so, 1.5); newtonConverged = conv; data(); function_factory::flow_problem::nu = 1.5; Prob p(k, 1, true); balanced(p); ONS s; prepare(s, p); sx::check(s.pres_dbc == !level, l + ": pressure level");
   const int nu = s.u_offsets.Last(), np = s.p_offsets.Last(), n = nu + np; std::vector<int> place; for (int v = 0; v < 2; v++) for (int m = 0; m < s.numSub; m++) for (int i = s.var_offsets[2 * m + v]; i < s.var_offsets[2 * m + v + 1]; i++) place.push_back(i);
   Vector start(n); fill(start, "start"); if (restart) { static_cast<Vector &>(*s.U) = start; s.SaveSolution("start.h5"); } for (int i = 0; i < n; i++) (*s.U)[i] = 7.0 + i;
   Vector b0(*s.RHS); Gen *g = sampler ? new Gen : nullptr; const bool c = s.Solve(g); sx::check(c == conv, l + ": convergence is reported"); sx::check(newton.times == 1 && newton.who == (lbfgs ? "LBFGSSolver" : "NewtonSolver"), l + ": the method asked for"); sx::check(newton.rtol == 0.5 && newton.atol == 0.25 && newton.maxit == 17, l + ": tolerances as asked"); sx::check(newton.fromGuess, l + ": the first guess is used");
   if (newton.b.Size() != n || newton.x0.Size() != n) { sx::check(false, l + ": sizes"); return; } double mean = 0; if (level) { for (int i = nu; i < n; i++) mean += newtonAnswer(i); mean /= np; }
   eqv(*s.RHS, b0, l + ": right-hand side kept"); for (int i = 0; i < n; i++) { sx::eq(newton.b[i], b0[place[i]], l + ": right-hand side solved for"); if (restart) sx::eq(newton.x0[i], start[place[i]], l + ": first guess from the file"); else sx::check(std::abs(newton.x0[i]) <= 1e-4, l + ": first guess near rest"); sx::eq((*s.U)[place[i]], newtonAnswer(i) - (i < nu ? 0.0 : mean), l + ": solution stored"); }
   int q = 0; for (int m = 0; m < s.us.Size(); m++) for (int i = 0; i < s.us[m]->Size(); i++, q++) sx::eq((*s.us[m])[i], (*s.U)[q], l + ": solution of a subdomain");
   if (g) { sx::check((g->snapshot_generators.Size() > 0) == conv, l + ": a sample is taken exactly when the solution converged"); int tot = 0; for (int t = 0; t < g->snapshot_generators.Size(); t++) { auto m = g->LookUpSnapshot(g->basis_tags[t]); sx::check(m->numColumns() == 1 && m->numRows() == s.domain_offsets[t + 1] - s.domain_offsets[t], l + ": one snapshot"); for (int i = 0; i < m->numRows(); i++) sx::eq(m->item(i, 0), (*s.U)[s.domain_offsets[t] + i], l + ": snapshot of a subdomain"); tot += m->numRows(); } if (conv) sx::check(tot == n, l + ": every unknown is sampled"); delete g; }
}
