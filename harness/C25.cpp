// Reduced Navier-Stokes flow: the reduced residual and its Jacobian are the projections of the full-order ones, from tensors or, with every quadrature point kept, from sampled quadratures
#include "rom.hpp"
#include "newton.hpp"
#include "steady_ns_solver.hpp"
#include "rom_nonlinearform.hpp"
#include "rom_interfaceform.hpp"
struct ONS : public Open<SteadyNSSolver> { using SteadyNSSolver::u_offsets; using SteadyNSSolver::p_offsets; using SteadyNSSolver::ufes; using SteadyNSSolver::comp_eqps; using SteadyNSSolver::comp_tensors; using SteadyNSSolver::itf_eqp; using SteadyNSSolver::ir_nl; using SteadyNSSolver::ir_face; };
struct Flow { bool lf, eqp, pre, restart, direct; double zeta; };
static void flow(const Conf &c, const Flow &n)
{
   conf(c); config.dict_["discretization"]["interface"]["sigma"] = c.sg; config.dict_["discretization"]["interface"]["kappa"] = c.ka;
   config.dict_["navier-stokes"] = YAML::Load("{operator-type: " + S(n.lf ? "lf" : "base") + "}"); config.dict_["navier-stokes"]["zeta"] = n.zeta; config.dict_["solver"] = YAML::Load("{use_amg: false, direct_solve: true, max_iter: 17, relative_tolerance: 0.5, absolute_tolerance: 0.25, jacobian: {max_iter: 19, relative_tolerance: 0.375, absolute_tolerance: 0.125}" + S(n.restart ? ", use_restart: true, restart_file: start.h5" : "") + "}");
   config.dict_["model_reduction"]["nonlinear_handling"] = n.eqp ? "eqp" : "tensor"; config.dict_["model_reduction"]["eqp"] = YAML::Load("{precompute: " + S(n.pre ? "true" : "false") + "}"); config.dict_["save_solution"] = YAML::Load("{enabled: true, file_path: {directory: ., prefix: sol}}");
   config.dict_["model_reduction"]["linear_solver_type"] = n.direct ? "direct" : "minres"; config.dict_["model_reduction"]["linear_system_type"] = "us";
}
static void data() { for (int a : ATTR) for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) BV[a].c[k][i] = k < 2 ? 0.25 * (1 + (a + 2 * k + 3 * i) % 5) - 0.5 : 0.0; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) SRC.c[k][i] = 0.25 + 0.5 * k - 0.125 * i; }
// every quadrature point with its own weight
static void everything(ONS &t, const Conf &c, bool lf)
{
   for (int k = 0; k < t.topol_handler->GetNumComponents(); k++)
   {
      ROMNonlinearForm &h = *t.comp_eqps[k]; Mesh &m = *t.topol_handler->GetComponentMesh(k); auto add = [](Array<SampleInfo> &s, int el, const IntegrationRule &ir) { for (int q = 0; q < ir.GetNPoints(); q++) s.Append(SampleInfo({el, q, ir.IntPoint(q).weight})); };
      Array<SampleInfo> s; for (int e = 0; e < m.GetNE(); e++) add(s, e, *t.ir_nl); h.UpdateDomainIntegratorSampling(0, s); if (!lf) continue;
      if (c.dg) { s.SetSize(0); for (int f = 0; f < m.GetNumFaces(); f++) if (m.GetInteriorFaceTransformations(f)) add(s, f, *t.ir_face); h.UpdateInteriorFaceIntegratorSampling(0, s); }
      for (int b = 0; b < m.bdr_attributes.Size(); b++) for (int z = 0; z < 2; z++) { s.SetSize(0); for (int e = 0; e < m.GetNBE(); e++) if (m.GetBdrAttribute(e) == m.bdr_attributes[b]) add(s, e, *t.ir_face); h.UpdateBdrFaceIntegratorSampling(2 * b + z, s); }
   }
   if (lf) for (int p = 0; p < t.topol_handler->GetNumRefPorts(); p++) { Array<SampleInfo> s; for (int i = 0; i < t.topol_handler->GetRefInterfaceInfos(p)->Size(); i++) for (int q = 0; q < t.ir_face->GetNPoints(); q++) s.Append(SampleInfo({i, q, t.ir_face->IntPoint(q).weight})); t.itf_eqp->UpdateInterFaceIntegratorSampling(0, p, s); }
}
static void reduced(World2 *sub, int kind, int worlds, std::vector<S> kinds, Flow n, const S &l)
{
   Conf c; c.vars = {"vel", "pres"}; c.sub = sub; if (sub) { for (int m = 0; m < sub->nsub(); m++) { c.w.names.push_back("comp" + I(m)); c.w.types.push_back(m); } } else c.w = compose(kind, worlds < 2 ? 2 : sx::choose("composition", 0, worlds - 1));
   c.sep = sx::choose("separate variables", 0, 1); c.byvar = c.sep && sx::choose("ordered by variable", 0, 1); c.dg = kind == 1 && (sub ? sub->dg : sx::choose("full dg", 0, 1)); c.kinds = kinds[sx::choose("boundary types", 0, kinds.size() - 1)]; c.nsup = 1; c.sg = -1; c.ka = 4;
   { const char *L[] = {"global", "none", "component"}; c.level = n.eqp ? "component" : L[sx::choose("level", 0, sub ? 1 : 2)]; } n.pre = n.eqp && sx::choose("precomputed", 0, 1); n.restart = n.lf ? n.pre : sx::choose("restart", 0, 1); n.direct = n.lf ? n.restart : sx::choose("direct", 0, 1); if (!sub) write(c.w); data(); function_factory::flow_problem::nu = sx::real("nu", 0.5, 2);
   const int nsym = n.lf ? 0 : 2; if (n.lf) basisEntry = [](int i, int j) { return j == 0 ? (i < firstHalf ? 0.5 : 0.85) + 0.1 * ((5 * i) % 11) / 10 : 0.1 * ((5 * i + 3 * j) % 11) / 10 - 0.05; };
   directSolver(); answer = [](int i) { return sx::real("correction" + I(i)); }; newtonAnswer = [](int i) { return sx::real("answer" + I(i)); }; newtonConverged = answerConverged = true; inspect = nullptr;
   flow(c, n); Prob p(c.kinds, 1, true); balanced(p); config.dict_["solver"]["use_restart"] = false; ONS f; open(f, p); f.BuildOperators(); f.SetupBCOperators(); f.Assemble(); Bases B(c, f, nsym); const int N = f.numSub, nv = 2, nb = c.sep ? 2 : 1, nu = f.u_offsets.Last();
   auto idx = [&](int m, int v) { return c.byvar ? m + v * N : m * nb + v; }; std::vector<int> o(N * nb + 1, 0); for (int m = 0; m < N; m++) for (int v = 0; v < nb; v++) o[idx(m, v) + 1] = B.of(c, m, v).Width(); for (size_t i = 1; i < o.size(); i++) o[i] += o[i - 1]; const int nr = o.back(), nf = f.U->Size();
   DenseMatrix P(nf, nr); P = 0.0; for (int m = 0; m < N; m++) for (int v = 0; v < nb; v++) { const DenseMatrix &b = B.of(c, m, v); const int at = c.sep ? f.var_offsets[m * nv + v] : f.domain_offsets[m]; for (int i = 0; i < b.Height(); i++) for (int j = 0; j < b.Width(); j++) P(at + i, o[idx(m, v)] + j) = b(i, j); }
   std::vector<int> place; for (int v = 0; v < 2; v++) for (int m = 0; m < N; m++) for (int i = f.var_offsets[2 * m + v]; i < f.var_offsets[2 * m + v + 1]; i++) place.push_back(i);
   Vector xr(nr); for (int m = 0, q = 0; m < N; m++) for (int v = 0; v < nb; v++) for (int j = 0; j < o[idx(m, v) + 1] - o[idx(m, v)]; j++, q++) xr[o[idx(m, v)] + j] = n.lf ? (j ? 0.1 : 0.95) + (j < 1 && m < 2 && v == 0 ? sx::real("x" + I(m), -0.002, 0.002) : 0.0) : q % 3 < 2 ? sx::real("x" + I(q)) : 0.375 + 0.125 * (q % 4);
   Vector want(nr); DenseMatrix slope(nr); want = 0.0; bool full = false;
   inspect = [&](const Operator &op, Solver &) { full = true; Vector x(nf), y(nf); x = 0.0; for (int i = 0; i < nf; i++) for (int j = 0; j < nr; j++) x[i] += P(place[i], j) * xr[j]; op.Mult(x, y); DenseMatrix J = denseOp(op.GetGradient(x)), Q(nf, nr); for (int i = 0; i < nf; i++) for (int j = 0; j < nr; j++) Q(i, j) = P(place[i], j); for (int j = 0; j < nr; j++) for (int i = 0; i < nf; i++) want[j] += Q(i, j) * y[i]; slope = rtap(Q, J, Q); };
   newton = Newton(); f.Solve(nullptr); sx::check(full, l + ": full order"); Vector start(nf); for (int i = 0; i < nf; i++) start[i] = i % 4 ? 0.25 * (i % 5) : sx::real("start" + I(i)); static_cast<Vector &>(*f.U) = start; f.SaveSolution("start.h5");
   inspect = nullptr; if (c.level != "none") { flow(c, n); ONS t; open(t, p); t.BuildOperators(); t.SetupBCOperators(); t.LoadReducedBasis(); t.AllocateROMNlinElems(); if (c.level == "component") { t.BuildROMLinElems(); t.SaveROMLinElems("op.h5"); if (n.eqp) everything(t, c, n.lf); else t.BuildROMTensorElems(); t.SaveROMNlinElems("op"); } else { t.Assemble(); t.ProjectOperatorOnReducedBasis(); t.SaveROMOperator("op.h5"); } }
   flow(c, n); ONS s; open(s, p); s.BuildRHSOperators(); s.SetupRHSBCOperators(); s.AssembleRHS(); s.LoadReducedBasis(); s.AllocateROMNlinElems(); if (c.level == "component") { s.LoadROMLinElems("op.h5"); s.AssembleROMMat(); s.LoadROMNlinElems("op"); s.AssembleROMNlinOper(); } else if (c.level == "global") s.LoadROMOperatorFromFile("op.h5"); else { s.BuildDomainOperators(); s.SetupDomainBCOperators(); s.AssembleOperator(); s.ProjectOperatorOnReducedBasis(); }
   s.ProjectRHSOnReducedBasis(); Vector r(nr); for (int j = 0; j < nr; j++) { r[j] = 0.0; for (int i = 0; i < nf; i++) r[j] += P(i, j) * (*f.RHS)[i]; } bool seen = false; asked = Asked(); newton = Newton();
   inspect = [&](const Operator &op, Solver &prec) {
      seen = true; sx::check(op.Height() == nr && op.Width() == nr, l + ": size of the reduced residual"); Vector x(nr), y(nr); for (int i = 0; i < nr; i++) x[i] = xr[i] + (n.lf ? 0.01 : 0.25 * (i % 3)); y = 3.0; op.Mult(x, y); op.GetGradient(x);             // what was done before must not matter
      x = xr; y = 5.0; op.Mult(x, y); eqv(x, xr, l + ": state kept"); eqv(y, want, l + ": reduced residual"); Operator &J = op.GetGradient(x); eqv(x, xr, l + ": state kept");
      Vector a(nr), d(nr); for (int i = 0; i < nr; i++) { a[i] = 0.5 + 0.25 * (i % 3); d[i] = 0.0; } prec.SetOperator(J); prec.Mult(a, d); sx::check(asked.times == 1 && asked.who == (n.direct ? "MUMPS" : "MINRESSolver"), l + ": solver of the corrections"); eqv(asked.b, a, l + ": right-hand side of the correction"); if (n.direct) sx::check(asked.type == MUMPSSolver::UNSYMMETRIC, l + ": kind of system"); else sx::check(asked.rtol == 0.375 && asked.atol == 0.125 && asked.maxit == 19, l + ": tolerances of the corrections");
      if (!asked.op) { sx::check(false, l + ": Jacobian"); return; } eqm(denseOp(*asked.op), slope, l + ": reduced Jacobian"); };
   for (int i = 0; i < nf; i++) (*s.U)[i] = 7.0 + i; s.SolveROM(); inspect = nullptr; sx::check(seen && newton.times == 1 && newton.who == "NewtonSolver", l + ": Newton's method is used once"); sx::check(newton.rtol == 0.5 && newton.atol == 0.25 && newton.maxit == 17 && newton.fromGuess, l + ": tolerances as asked");
   eqv(newton.b, r, l + ": reduced right-hand side"); if (newton.x0.Size() != nr) { sx::check(false, l + ": size of the guess"); return; } for (int j = 0; j < nr; j++) { if (!n.restart) { sx::check(std::abs(newton.x0[j]) <= 1e-4, l + ": first guess near rest"); continue; } double z = 0; for (int i = 0; i < nf; i++) z += P(i, j) * start[i]; sx::eq(newton.x0[j], z, l + ": first guess from the file"); }
   for (int i = 0; i < nf; i++) { double z = 0; for (int j = 0; j < nr; j++) z += P(i, j) * newtonAnswer(j); sx::eq((*s.U)[i], z, l + ": lifted solution"); } (void)nu;
}
static Flow kindOf(bool lf, bool eqp) { return {lf, eqp, false, false, false, lf ? 1.25 : sx::real("zeta", 0.5, 2)}; }
SX_CASE(tensor_quads) { reduced(nullptr, 0, 3, {"DZND", "D-DN"}, kindOf(false, false), "tensor"); }
SX_CASE(tensor_triangles) { reduced(nullptr, 1, 1, {"DZND"}, kindOf(false, false), "tensor"); }
SX_CASE(tensor_decomposed) { World2 w(1, partOf(2 + sx::choose("partition", 0, 1)), 1, sx::choose("full dg", 0, 1)); reduced(&w, 1, 0, {"DZND"}, kindOf(false, false), "tensor"); }
SX_CASE(sampled_convection) { reduced(nullptr, 0, 3, {"DZND", "D-DN"}, kindOf(false, true), "sampled convection"); }
SX_CASE(sampled_lax_friedrichs) { reduced(nullptr, 1, 3, {"DZND", "NNDZ"}, kindOf(true, true), "sampled Lax-Friedrichs"); }
