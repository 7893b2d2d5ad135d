// Unsteady Navier-Stokes flow: every time step solves the system of the undecomposed problem at its time, restarts and snapshots are those of the states passed through, and the reduced steps are the projections of the full-order ones
#include "convect.hpp"
#include "rom.hpp"
#include "newton.hpp"
#include "unsteady_ns_solver.hpp"
#include "rom_nonlinearform.hpp"
#include "rom_interfaceform.hpp"
#include "sample_generator.hpp"
struct OS : public Open<StokesSolver>
{
   using StokesSolver::M; using StokesSolver::B; using StokesSolver::f_coeffs; using StokesSolver::ud_coeffs; using StokesSolver::u_offsets; using StokesSolver::p_offsets; using StokesSolver::ufes; using StokesSolver::pres_dbc;
   void at(double t) { for (auto *c : f_coeffs) if (c) c->SetTime(t); for (auto *c : ud_coeffs) if (c) c->SetTime(t); AssembleRHS(); }
};
struct OU : public Open<UnsteadyNSSolver> { using UnsteadyNSSolver::comp_eqps; using UnsteadyNSSolver::itf_eqp; using UnsteadyNSSolver::ir_nl; using UnsteadyNSSolver::ir_face; using UnsteadyNSSolver::us; };
struct Gen : public SampleGenerator { Gen() : SampleGenerator(MPI_COMM_WORLD) {} using SampleGenerator::snapshot_generators; using SampleGenerator::basis_tags; };
static void rates() { data(); for (int a : ATTR) for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) BV[a].c[k][i] *= 0.25; for (int a : ATTR) for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) BRATE[a].c[k][i] = 0.0625 * (1 + (2 * a + k + i) % 3); for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) SRATE.c[k][i] = 0.5 - 0.25 * k + 0.125 * i; }
// states: x-velocities near 0.55, y-velocities near 0.9 (no ties of speeds), any pressure

static std::vector<char> isX, isU;
static double entry(int i, int s, const std::vector<int> &sym) { double v = isU[i] ? (isX[i] ? 0.5 : 0.85) + 0.05 + 0.05 * std::sin(1.7 * i + 2.3 * s) : 0.25 * ((5 * i + s) % 17) - 2.0 + 0.0078125 * i; for (int k : sym) if (k == i) v += sx::real("x" + I(s) + "_" + I(i), isU[i] ? -0.002 : -1e-3, isU[i] ? 0.002 : 1e-3); return v; }
static double dt; static void uic(const Vector &x, double, Vector &y) { y.SetSize(2); y[0] = 0.55 + 0.03125 * x[0] - 0.0625 * x[1]; y[1] = 0.9 - 0.03125 * x[1] + 0.015625 * x[0]; } static void pic(const Vector &x, double, Vector &y) { y.SetSize(1); y[0] = 0.25 + 0.5 * x[0] - 0.75 * x[1]; }
struct Steps { int nt, first, sample, boot; };
static void configureSteps(const Steps &s, bool restart, int every) { config.dict_["time-integration"] = YAML::Load("{number_of_timesteps: " + I(s.nt) + "}"); config.dict_["time-integration"]["timestep_size"] = dt; config.dict_["navier-stokes"] = YAML::Load("{operator-type: lf}"); config.dict_["navier-stokes"]["zeta"] = 1.25; config.dict_["solver"] = YAML::Load("{use_amg: false, direct_solve: true" + S(restart ? ", use_restart: true, restart_file: sol_" + std::string("0000000") + I(s.first) + ".h5" : "") + "}"); config.dict_["save_solution"] = YAML::Load("{enabled: true, restart_interval: " + I(every) + ", file_path: {directory: ., prefix: sol}}"); }
static void order(int numSub, const Array<int> &vo, std::vector<int> &place) { place.clear(); isX.clear(); isU.clear(); for (int v = 0; v < 2; v++) for (int m = 0; m < numSub; m++) { const int a = vo[2 * m + v], b = vo[2 * m + v + 1]; for (int i = a; i < b; i++) { place.push_back(i); isU.push_back(v == 0); isX.push_back(i - a < (b - a) / 2); } } }
// the system of the undecomposed problem
struct Oracle
{
   World2 &w; OS &f; Parent pu; Convection C; DenseMatrix A, mass; int nu, np, n;
   Oracle(World2 &w_, OS &f_, const S &k) : w(w_), f(f_), pu(w, 2, 2), C(w, (add(), pu), true, k, 1.25), nu(f.u_offsets.Last()), np(f.p_offsets.Last()), n(nu + np)
   {
      mass.SetSize(nu); mass = 0.0; for (int m = 0; m < f.numSub; m++) { DenseMatrix q = biform(f.ufes[m], [](BilinearForm &b) { b.AddDomainIntegrator(new VectorMassIntegrator); }); for (int i = 0; i < q.Height(); i++) for (int j = 0; j < q.Width(); j++) mass(f.u_offsets[m] + i, f.u_offsets[m] + j) = q(i, j); }
      DenseMatrix M = dense(*f.M), B = dense(*f.B); A.SetSize(n); A = 0.0; for (int i = 0; i < nu; i++) for (int j = 0; j < nu; j++) A(i, j) = M(i, j) + mass(i, j) / dt; for (int i = 0; i < np; i++) for (int j = 0; j < nu; j++) A(nu + i, j) = A(j, nu + i) = B(i, j);
   }
   void add() { for (int m = 0; m < f.numSub; m++) pu.add(f.ufes[m]); }
   Vector rhs(double t, const Vector &x, const std::vector<int> &place) { f.at(t); C.at(t); Vector u(nu), r(n); for (int i = 0; i < nu; i++) u[i] = x[i]; Vector c = C.value(u); for (int i = 0; i < n; i++) r[i] = (*f.RHS)[place[i]]; for (int i = 0; i < nu; i++) { r[i] -= c[i]; for (int j = 0; j < nu; j++) r[i] += mass(i, j) * u[j] / dt; } return r; }
};
static Vector level(Vector x, int nu, bool free) { if (free) { double m = 0; for (int i = nu; i < x.Size(); i++) m += x[i]; m /= x.Size() - nu; for (int i = nu; i < x.Size(); i++) x[i] -= m; } return x; }
SX_CASE(time_steps)
{
   const int start = sx::choose("initial condition", 0, 1), part = sx::choose("partition", 0, 2) * 2; const bool dg = sx::choose("full dg", 0, 1), free = !dg && sx::choose("pressure level free", 0, 1); const S k = free ? "DZDD" : "DZND", l = "time steps"; const Steps s{3, 0, 1 + (part + dg) % 2, start};
   World2 w(1, partOf(part), 1, dg); w.configure("sample_generation: {time-integration: {sample_interval: " + I(s.sample) + ", bootstrap: " + I(s.boot) + "}, file_path: {prefix: snap}, maximum_number_of_snapshots: 5, parameters: [{key: a, type: double, minimum: 0.0, maximum: 1.0, sample_size: 2}]}"); dt = sx::real("dt", 0.12, 0.15); const int every = 1 + start; configureSteps(s, false, every); directSolver(); rates(); function_factory::flow_problem::nu = sx::real("nu", 0.5, 2);
   Prob p(k, 1, true); balanced(p); if (start) { p.ic_ptr.SetSize(2); p.ic_ptr[0] = uic; p.ic_ptr[1] = pic; } auto prepare = [&](MultiBlockSolver &s) { s.InitVariables(); s.SetParameterizedProblem(&p); s.BuildOperators(); s.SetupBCOperators(); s.Assemble(); };
   OS f; prepare(f); std::vector<int> place; order(f.numSub, f.var_offsets, place); Oracle O(w, f, k); const int n = O.n; const std::vector<int> sym{O.nu / 2 + 1, O.nu - 1, O.nu + O.np / 2};
   Vector x(n); for (int m = 0, a = 0; m < f.numSub; m++) for (int v = 0; v < 2; v++) { GridFunction g(f.fes[2 * m + v]); g = 0.0; if (start) { VectorFunctionCoefficient c(v ? 1 : 2, v ? pic : uic); g.ProjectCoefficient(c); } for (int i = 0; i < g.Size(); i++, a++) for (int b = 0; b < n; b++) if (place[b] == a) x[b] = g[i]; }
   std::vector<Vector> states{x}; for (int q = 0; q < s.nt; q++) { Vector y(n); for (int i = 0; i < n; i++) y[i] = entry(i, q + 1, sym); states.push_back(level(y, O.nu, free)); } std::vector<double> time(1, 0.0); for (int q = 0; q < s.nt; q++) time.push_back(time.back() + dt);
   int at = 0; MUMPSSolver::solve() = [&](const MUMPSSolver &m, const Vector &b, Vector &y) { sx::check(at < s.nt && b.Size() == n && m.op && m.type != MUMPSSolver::SYMMETRIC_POSITIVE_DEFINITE, l + ": a step of the run"); if (at >= s.nt) return; if (at == s.nt - 1) eqm(denseOp(*m.op), O.A, l + ": system of the steps"); eqv(b, O.rhs(time[at], states[at], place), l + ": right-hand side of a step"); at++; for (int i = 0; i < n; i++) y[i] = entry(i, at, sym); };
   Gen *g = new Gen; { OU u; prepare(u); const bool c = u.Solve(g); sx::check(c && at == s.nt, l + ": number of steps"); for (int i = 0; i < n; i++) sx::eq((*u.U)[place[i]], states[s.nt][i], l + ": final state"); }
   std::vector<int> kept; for (int q = 1; q <= s.nt; q++) if (q > s.boot && q % s.sample == 0) kept.push_back(q); sx::check((g->snapshot_generators.Size() > 0) == (kept.size() > 0), l + ": snapshots are taken"); for (int t = 0; t < g->snapshot_generators.Size(); t++) { auto m = g->LookUpSnapshot(g->basis_tags[t]); sx::check(m->numColumns() == (int)kept.size() && m->numRows() == f.domain_offsets[t + 1] - f.domain_offsets[t], l + ": one snapshot for each step asked for"); if (m->numColumns() != (int)kept.size()) continue; for (int j = 0; j < m->numColumns(); j++) for (int i = 0; i < n; i++) { const int r = place[i] - f.domain_offsets[t]; if (r >= 0 && r < m->numRows()) sx::eq(m->item(r, j), states[kept[j]][i], l + ": snapshot of a step"); } } delete g;
   for (int q = 0; q <= s.nt; q += every) { OU u; u.InitVariables(); int step = -7; double t = -7; u.LoadSolutionWithTime("sol_0000000" + I(q) + ".h5", step, t); sx::check(step == q, l + ": step in the file"); sx::eq(t, time[q], l + ": time in the file"); for (int i = 0; i < n; i++) sx::eq((*u.U)[place[i]], states[q][i], l + ": state in the file"); }
   // from a file in the middle: the same systems, the same states
   Steps r = s; r.first = at = every; configureSteps(r, true, every); { OU u; prepare(u); u.Solve(nullptr); sx::check(at == s.nt, l + ": number of steps after a restart"); for (int i = 0; i < n; i++) sx::eq((*u.U)[place[i]], states[s.nt][i], l + ": final state after a restart"); }
}
// every quadrature point with its own weight
static void everything(OU &t, const Conf &c)
{
   auto add = [](Array<SampleInfo> &s, int el, const IntegrationRule &ir) { for (int q = 0; q < ir.GetNPoints(); q++) s.Append(SampleInfo({el, q, ir.IntPoint(q).weight})); };
   for (int k = 0; k < t.topol_handler->GetNumComponents(); k++)
   {
      ROMNonlinearForm &h = *t.comp_eqps[k]; Mesh &m = *t.topol_handler->GetComponentMesh(k); Array<SampleInfo> s; for (int e = 0; e < m.GetNE(); e++) add(s, e, *t.ir_nl); h.UpdateDomainIntegratorSampling(0, s);
      if (c.dg) { s.SetSize(0); for (int f = 0; f < m.GetNumFaces(); f++) if (m.GetInteriorFaceTransformations(f)) add(s, f, *t.ir_face); h.UpdateInteriorFaceIntegratorSampling(0, s); }
      for (int b = 0; b < m.bdr_attributes.Size(); b++) for (int z = 0; z < 2; z++) { s.SetSize(0); for (int e = 0; e < m.GetNBE(); e++) if (m.GetBdrAttribute(e) == m.bdr_attributes[b]) add(s, e, *t.ir_face); h.UpdateBdrFaceIntegratorSampling(2 * b + z, s); }
   }
   for (int p = 0; p < t.topol_handler->GetNumRefPorts(); p++) { Array<SampleInfo> s; for (int i = 0; i < t.topol_handler->GetRefInterfaceInfos(p)->Size(); i++) add(s, i, *t.ir_face); t.itf_eqp->UpdateInterFaceIntegratorSampling(0, p, s); }
}
// the full-order questions are recorded on a run over the lifted states
SX_CASE(reduced_steps)
{
   Conf c; c.vars = {"vel", "pres"}; c.w = compose(1, sx::choose("composition", 0, 2)); c.sep = c.byvar = true; c.dg = sx::choose("full dg", 0, 1); const bool free = !c.dg && sx::choose("pressure level free", 0, 1), direct = sx::choose("direct", 0, 1), restart = sx::choose("restart", 0, 1); c.kinds = free ? "DZDD" : "DZND"; c.nsup = 1; c.sg = -1; c.ka = 4; c.level = "component"; const S l = "reduced steps";
   const int nt = 3, first = restart ? 1 : 0; basisEntry = [](int i, int j) { return j == 0 ? (i < firstHalf ? 0.5 : 0.85) + 0.05 + 0.05 * std::sin(1.7 * i) : 0.1 * ((5 * i + 3 * j) % 11) / 10 - 0.05; }; write(c.w); rates(); function_factory::flow_problem::nu = sx::real("nu", 0.5, 2); dt = sx::real("dt", 0.12, 0.15);
   auto setup = [&](bool rs) { conf(c); config.dict_["discretization"]["interface"]["sigma"] = c.sg; config.dict_["discretization"]["interface"]["kappa"] = c.ka; configureSteps({nt, first, 0, 0}, rs, 0); config.dict_["model_reduction"]["nonlinear_handling"] = "eqp"; config.dict_["model_reduction"]["eqp"] = YAML::Load("{precompute: " + S(direct ? "true" : "false") + "}"); config.dict_["model_reduction"]["linear_solver_type"] = direct ? "direct" : "minres"; config.dict_["model_reduction"]["linear_system_type"] = "us"; };
   setup(false); Prob p(c.kinds, 1, true); balanced(p); if (!restart) { p.ic_ptr.SetSize(2); p.ic_ptr[0] = uic; p.ic_ptr[1] = pic; }
   OU f; open(f, p); f.BuildOperators(); f.SetupBCOperators(); f.Assemble(); Bases B(c, f, 0); const int N = f.numSub, nf = f.U->Size(); std::vector<int> place; order(N, f.var_offsets, place);
   std::vector<int> o(2 * N + 1, 0); for (int v = 0; v < 2; v++) for (int m = 0; m < N; m++) o[v * N + m + 1] = o[v * N + m] + B.of(c, m, v).Width(); const int nr = o.back(); DenseMatrix P(nf, nr); P = 0.0; for (int m = 0; m < N; m++) for (int v = 0; v < 2; v++) { const DenseMatrix &b = B.of(c, m, v); for (int i = 0; i < b.Height(); i++) for (int j = 0; j < b.Width(); j++) P(f.var_offsets[2 * m + v] + i, o[v * N + m] + j) = b(i, j); }
   DenseMatrix Q(nf, nr); for (int i = 0; i < nf; i++) for (int j = 0; j < nr; j++) Q(i, j) = P(place[i], j); auto lift = [&](const Vector &x) { Vector y(nf); for (int i = 0; i < nf; i++) { y[i] = 0.0; for (int j = 0; j < nr; j++) y[i] += Q(i, j) * x[j]; } return y; }; auto proj = [&](const Vector &y) { Vector x(nr); for (int j = 0; j < nr; j++) { x[j] = 0.0; for (int i = 0; i < nf; i++) x[j] += Q(i, j) * y[i]; } return x; };
   auto coef = [&](int s) { Vector x(nr); for (int v = 0; v < 2; v++) for (int m = 0; m < N; m++) for (int j = o[v * N + m], q = 0; j < o[v * N + m + 1]; j++, q++) { x[j] = v ? 0.25 * ((3 * j + s) % 5) - 0.375 : q ? 0.05 : 0.95 + 0.02 * ((m + s) % 3); if (q == 0 && m < 2 && s < nt && !v) x[j] += sx::real("c" + I(s) + "_" + I(j), -0.002, 0.002); } return x; };
   // states: the first one, then the answers
   Vector first0(nf); for (int i = 0; i < nf; i++) first0[i] = entry(i, 9, {}) * 0.02; std::vector<Vector> y{Vector()}; if (restart) { for (int i = 0; i < nf; i++) (*f.U)[place[i]] = first0[i]; f.SaveSolutionWithTime("sol_00000001.h5", 1, dt); } else for (int m = 0, a = 0; m < N; m++) for (int v = 0; v < 2; v++) { GridFunction g(f.fes[2 * m + v]); VectorFunctionCoefficient k(v ? 1 : 2, v ? pic : uic); g.ProjectCoefficient(k); for (int i = 0; i < g.Size(); i++, a++) for (int b = 0; b < nf; b++) if (place[b] == a) first0[b] = g[i]; }
   y[0] = proj(first0); int np = 0, nu = 0; for (int m = 0; m < N; m++) { nu += f.var_offsets[2 * m + 1] - f.var_offsets[2 * m]; np += f.var_offsets[2 * m + 2] - f.var_offsets[2 * m + 1]; }
   for (int s = first; s < nt; s++) { Vector x = coef(s); if (free) { Vector z = lift(x); double mean = 0; for (int i = nu; i < nf; i++) mean += z[i]; mean /= np; Vector one(nf); for (int i = 0; i < nf; i++) one[i] = i < nu ? 0.0 : mean; Vector d = proj(one); for (int j = 0; j < nr; j++) x[j] -= d[j]; } y.push_back(x); }
   setup(false); OU t; open(t, p); t.BuildOperators(); t.SetupBCOperators(); t.LoadReducedBasis(); t.AllocateROMNlinElems(); t.BuildROMLinElems(); t.SaveROMLinElems("op.h5"); everything(t, c); t.SaveROMNlinElems("op");
   // the full-order steps from the lifted states
   std::vector<Vector> want; DenseMatrix A; int at = 0; directSolver(); { Vector z = lift(y[0]); setup(true); config.dict_["solver"]["restart_file"] = "lifted.h5"; OU u; open(u, p); u.BuildOperators(); u.SetupBCOperators(); u.Assemble(); for (int i = 0; i < nf; i++) (*u.U)[place[i]] = z[i]; double tm = 0; if (first) tm = dt; u.SaveSolutionWithTime("lifted.h5", first, tm); MUMPSSolver::solve() = [&](const MUMPSSolver &m, const Vector &b, Vector &x) { want.push_back(proj(b)); if (!at) { DenseMatrix D = denseOp(*m.op); A = rtap(Q, D, Q); } at++; Vector z = lift(y[at]); x = z; }; u.Solve(nullptr); }
   sx::check(at == nt - first, l + ": full-order steps"); at = 0; setup(restart); OU s; open(s, p); s.BuildRHSOperators(); s.SetupRHSBCOperators(); s.AssembleRHS(); s.LoadReducedBasis(); s.AllocateROMNlinElems(); s.LoadROMLinElems("op.h5"); static_cast<MultiBlockSolver &>(s).AssembleROMMat(); s.LoadROMNlinElems("op"); s.AssembleROMNlinOper(); s.ProjectRHSOnReducedBasis();
   directSolver(); Vector now; answer = [&](int i) { if (i == 0) { sx::check(asked.op && asked.b.Size() == nr && at < nt - first && asked.who == (direct ? "MUMPS" : "MINRESSolver"), l + ": a step of the run"); if (!direct || asked.type == MUMPSSolver::UNSYMMETRIC) {} else sx::check(false, l + ": kind of system"); now.SetSize(nr); now = 0.0; if (asked.op && asked.b.Size() == nr && at < nt - first) { if (!at) eqm(denseOp(*asked.op), A, l + ": reduced system"); eqv(asked.b, want[at], l + ": reduced right-hand side of a step"); now = coef(first + at); } at++; } return now[i]; };
   for (int i = 0; i < nf; i++) (*s.U)[i] = 7.0 + i; s.SolveROM(); sx::check(at == nt - first, l + ": number of steps"); Vector z = lift(y.back()); for (int i = 0; i < nf; i++) sx::eq((*s.U)[place[i]], z[i], l + ": lifted last state");
}
