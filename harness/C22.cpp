// Solving: the assembled system is what the chosen solver is given, its answer is what is stored, saved, loaded and compared
#include "phys.hpp"
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "advdiff_solver.hpp"
#include "stokes_solver.hpp"
#include "sample_generator.hpp"
#include "asked.hpp"
template <class T> struct Open : public T
{
   using T::RHS; using T::U; using T::us; using T::fes; using T::numSub; using T::num_var; using T::var_offsets; using T::domain_offsets; using T::ComputeRelativeError;
};
struct OPoisson : public Open<PoissonSolver> { using PoissonSolver::mats; using PoissonSolver::globalMat; };
struct OElast : public Open<LinElastSolver> { using LinElastSolver::mats; using LinElastSolver::globalMat; };
struct OAdv : public Open<AdvDiffSolver> { using PoissonSolver::mats; using PoissonSolver::globalMat; };
struct OStokes : public Open<StokesSolver> { using StokesSolver::M; using StokesSolver::B; using StokesSolver::systemOp; using StokesSolver::u_offsets; using StokesSolver::p_offsets; using StokesSolver::pres_dbc; using StokesSolver::pM; };
struct Gen : public SampleGenerator { Gen() : SampleGenerator(MPI_COMM_WORLD) {} using SampleGenerator::snapshot_generators; using SampleGenerator::basis_tags; };
static DenseMatrix denseOp(const Operator &op)
{
   auto it = parallelOf.find(&op); if (it != parallelOf.end()) return dense(*it->second);
   if (auto *s = dynamic_cast<const SparseMatrix *>(&op)) return dense(*s);
   auto *b = dynamic_cast<const BlockMatrix *>(&op); DenseMatrix R(op.Height(), op.Width()); R = 0.0; if (!b) { sx::check(false, "kind of operator"); return R; }
   const Array<int> &r = const_cast<BlockMatrix *>(b)->RowOffsets(), &c = const_cast<BlockMatrix *>(b)->ColOffsets();
   for (int i = 0; i < b->NumRowBlocks(); i++) for (int j = 0; j < b->NumColBlocks(); j++) if (!b->IsZeroBlock(i, j)) { DenseMatrix d = dense(b->GetBlock(i, j)); for (int x = 0; x < d.Height(); x++) for (int y = 0; y < d.Width(); y++) R(r[i] + x, c[j] + y) = d(x, y); }
   return R;
}
enum { PLAIN, BLOCK, DIRECT, AMG };
static const S OPTS[] = {"use_amg: false, block_diagonal_preconditioner: false", "use_amg: false", "direct_solve: true, use_amg: false", "use_amg: true"};
struct Run { int mode; bool sampler, conv; };
static Run setup(World2 &w, const S &more = "")
{
   Run r; r.mode = sx::choose("solver", 0, 3); r.conv = r.mode == DIRECT || sx::choose("converges", 0, 1); r.sampler = sx::choose("sampling", 0, 1);
   w.configure("solver: {max_iter: 17, relative_tolerance: 0.5, absolute_tolerance: 0.25, " + OPTS[r.mode] + "}, save_solution: {enabled: true, file_path: {directory: ., prefix: sol}}, sample_generation: {file_path: {prefix: snap}, maximum_number_of_snapshots: 3, parameters: [{key: a, type: double, minimum: 0.0, maximum: 1.0, sample_size: 2}]}" + more);
   asked = Asked(); answerConverged = r.conv; answer = [](int i) { return sx::real("answer" + I(i)); }; directSolver(); return r;
}
template <class Sol> static void prepare(Sol &s, Prob &p) { s.InitVariables(); s.SetParameterizedProblem(&p); s.BuildOperators(); s.SetupBCOperators(); s.Assemble(); for (int i = 0; i < s.U->Size(); i++) (*s.U)[i] = 7.0 + i; }
// A: the whole system in the order in which the solver sees it; place: unknown of the solver -> entry of U
template <class Sol> static void solve(Sol &s, Run r, const DenseMatrix &A, const std::vector<int> &place, const S &who, int type, const S &l, std::function<double(int)> expect)
{
   Vector b0(*s.RHS); Gen *g = r.sampler ? new Gen : nullptr; const bool c = s.Solve(g); sx::check(c == r.conv, l + ": convergence is reported"); sx::check(asked.times == 1 && asked.who == (r.mode == DIRECT ? "MUMPS" : who), l + ": the solver asked for");
   if (!asked.op) { sx::check(false, l + ": the solver has a system"); return; }
   eqm(denseOp(*asked.op), A, l + ": the system solved"); if (r.mode == DIRECT) sx::check(asked.type == type, l + ": symmetry of the system"); else sx::check(asked.rtol == 0.5 && asked.atol == 0.25 && asked.maxit == 17, l + ": tolerances as asked");
   if (r.mode == PLAIN) sx::check(!asked.prec, l + ": no preconditioner");
   sx::check(asked.b.Size() == b0.Size() && asked.x0.Size() == b0.Size() && (int)place.size() == b0.Size(), l + ": sizes"); eqv(*s.RHS, b0, l + ": right-hand side kept");
   for (int i = 0; i < b0.Size(); i++) { sx::eq(asked.b[i], b0[place[i]], l + ": right-hand side solved for"); if (r.mode != DIRECT) sx::eq(asked.x0[i], 0.0, l + ": first guess"); sx::eq((*s.U)[place[i]], expect(i), l + ": solution stored"); }
   int k = 0; for (int m = 0; m < s.us.Size(); m++) { sx::check(s.us[m]->Size() == s.fes[m]->GetVSize(), l + ": solution of a subdomain"); for (int i = 0; i < s.us[m]->Size(); i++, k++) sx::eq((*s.us[m])[i], (*s.U)[k], l + ": solution of a subdomain"); }
   if (g) { sx::check((g->snapshot_generators.Size() > 0) == r.conv, l + ": a sample is taken exactly when the solution converged"); int n = 0; for (int t = 0; t < g->snapshot_generators.Size(); t++) { auto m = g->LookUpSnapshot(g->basis_tags[t]); sx::check(m->numColumns() == 1, l + ": one snapshot"); n += m->numRows(); sx::check(m->numRows() == s.num_vdofsOf(t), l + ": snapshot of a subdomain"); for (int i = 0; i < m->numRows(); i++) sx::eq(m->item(i, 0), (*s.U)[s.startOf(t) + i], l + ": snapshot of a subdomain"); } if (r.conv) sx::check(n == s.U->Size(), l + ": every unknown is sampled"); delete g; }
}
template <class T> struct Sampled : public T { int num_vdofsOf(int t) { return this->domain_offsets[t + 1] - this->domain_offsets[t]; } int startOf(int t) { return this->domain_offsets[t]; } };
static void data(int comps) { for (int a : ATTR) symLin(BV[a], "g" + I(a), comps); symLin(SRC, "f", comps); }
static std::vector<int> identity(int n) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; return p; }
template <class Sol> static void whole(Sol &s, Run r, const S &who, int type, const S &l)
{
   DenseMatrix A(s.var_offsets.Last()); for (int i = 0; i < s.numSub; i++) for (int j = 0; j < s.numSub; j++) { DenseMatrix d = dense(*s.mats(i, j)); for (int x = 0; x < d.Height(); x++) for (int y = 0; y < d.Width(); y++) A(s.var_offsets[i] + x, s.var_offsets[j] + y) = d(x, y); }
   solve(s, r, A, identity(A.Height()), who, type, l, answer);
}
static World2 world(bool dg = false) { return World2(1, partOf(sx::choose("partition", 0, 2) * 2), 1, dg); }
SX_CASE(poisson) { World2 w = world(); Run r = setup(w); data(1); Prob p("DZND", 1, true); Sampled<OPoisson> s; prepare(s, p); whole(s, r, "CGSolver", MUMPSSolver::SYMMETRIC_POSITIVE_DEFINITE, "Poisson"); }
SX_CASE(elasticity) { World2 w = world(true); Run r = setup(w); data(2); for (int i = 0; i < 2; i++) { MAT.c[i][0] = 1.0 + i; MAT.c[i][1] = MAT.c[i][2] = 0.0; } Prob p("DTND", 1, true); Sampled<OElast> s; prepare(s, p); whole(s, r, "CGSolver", MUMPSSolver::SYMMETRIC_POSITIVE_DEFINITE, "elasticity"); }
SX_CASE(advdiff)
{
   World2 w = world(); Run r = setup(w, ", adv-diff: {peclet_number: 2.0}"); data(1); symLin(FLOW[0], "u", 2); Prob p("DZND", 1, true); function_factory::advdiff_problem::analytic_flow = true; Sampled<OAdv> s; s.SetFlowAtSubdomain(flow<0>); prepare(s, p); whole(s, r, "GMRESSolver", MUMPSSolver::UNSYMMETRIC, "advection-diffusion");
}
template <int A> static void still(const Vector &x, double, Vector &y) { y = 0.0; Vector d(2); function_factory::flow_problem::flux(x, d); y -= d; }
SX_CASE(stokes)
{
   World2 w = world(); Run r = setup(w); const bool level = sx::choose("pressure level free", 0, 1); symLin(SRC, "f", 2); for (int a : ATTR) symLin(BV[a], "g" + I(a), 2); function_factory::flow_problem::nu = 1.5; Prob p(level ? "ZZZD" : "DZND", 1, true); for (int b = 0; level && b < p.battr.Size(); b++) if (p.bdr_type[b] == BT::DIRICHLET) p.vector_bdr_ptr[b] = still<0>;
   Sampled<OStokes> s; prepare(s, p); sx::check(s.pres_dbc == !level, "Stokes: pressure level"); const int nu = s.u_offsets.Last(), np = s.p_offsets.Last(); DenseMatrix A(nu + np), M = dense(*s.M), B = dense(*s.B); A = 0.0; for (int i = 0; i < nu; i++) for (int j = 0; j < nu; j++) A(i, j) = M(i, j); for (int i = 0; i < np; i++) for (int j = 0; j < nu; j++) A(nu + i, j) = A(j, nu + i) = B(i, j);
   std::vector<int> place; for (int v = 0; v < 2; v++) for (int m = 0; m < s.numSub; m++) for (int i = s.var_offsets[2 * m + v]; i < s.var_offsets[2 * m + v + 1]; i++) place.push_back(i);
   double mean = 0; if (level) { for (int i = nu; i < nu + np; i++) mean += answer(i); mean /= np; }
   solve(s, r, A, place, "MINRESSolver", MUMPSSolver::SYMMETRIC_INDEFINITE, "Stokes", [&](int i) { return i < nu ? answer(i) : answer(i) - mean; });
}
// ---- files
static void conf(World2 &w, bool on, const S &more = "") { w.configure("solver: {use_amg: false}, save_solution: {enabled: " + S(on ? "true" : "false") + ", file_path: {directory: ., prefix: sol}}" + more); }
static bool there(const S &f) { return std::ifstream(f).good(); }
template <class Sol> static void files(const S &l)
{
   World2 w = world(); const int how = sx::choose("how", 0, 2); conf(w, true); const S f = how == 0 ? "./sol.h5" : "other.h5"; Sol a; a.InitVariables(); Vector x(a.U->Size()); fill(x, "x"); static_cast<Vector &>(*a.U) = x;
   if (how == 2) a.SaveSolutionWithTime(f, 41, 2.5); else a.SaveSolution(how == 0 ? "" : f); eqv(*a.U, x, l + ": state kept by saving"); if (sx::choose("twice", 0, 1)) { for (int i = 0; i < x.Size(); i++) x[i] = 2.0 * x[i] - 1.0; static_cast<Vector &>(*a.U) = x; if (how == 2) a.SaveSolutionWithTime(f, 42, 3.5); else a.SaveSolution(how == 0 ? "" : f); }
   else { std::remove("none.h5"); a.SetSolutionSaveMode(false); a.SaveSolution("none.h5"); sx::check(!there("none.h5"), l + ": nothing is saved unless asked for"); }
   Sol b; b.InitVariables(); *b.U = 9.0; int step = -1; double time = -1; if (how == 2) b.LoadSolutionWithTime(f, step, time); else b.LoadSolution(f); eqv(*b.U, x, l + ": loaded solution"); if (how == 2) sx::check((step == 41 && time == 2.5) || (step == 42 && time == 3.5), l + ": loaded time"); int k = 0; for (int m = 0; m < b.us.Size(); m++) for (int i = 0; i < b.us[m]->Size(); i++, k++) sx::eq((*b.us[m])[i], x[k], l + ": loaded solution of a subdomain");
   Sol c; c.InitVariables(); *c.U = 3.0; c.CopySolution(b.U); eqv(*c.U, x, l + ": copied solution"); b.U->operator=(0.0); eqv(*c.U, x, l + ": the copy is independent"); k = 0; for (int m = 0; m < c.us.Size(); m++) for (int i = 0; i < c.us[m]->Size(); i++, k++) sx::eq((*c.us[m])[i], x[k], l + ": copied solution of a subdomain");
}
SX_CASE(files_poisson) { files<OPoisson>("Poisson"); }
SX_CASE(files_stokes) { files<OStokes>("Stokes"); }
SX_CASE(files_refused)
{
   { World2 w(1, partOf(0), 1, false); conf(w, true); OPoisson a; a.InitVariables(); *a.U = 1.0; a.SaveSolution("small.h5"); } { World2 w(1, partOf(0), 1, false); conf(w, true); OElast a; a.InitVariables(); *a.U = 1.0; a.SaveSolution("large.h5"); }
   World2 w(1, partOf(4), 1, false); conf(w, true); OPoisson b; b.InitVariables(); Vector x(b.U->Size()); fill(x, "x"); static_cast<Vector &>(*b.U) = x; const S f[] = {"small.h5", "large.h5", "missing.h5"}; bool refused = false; mayRefuse = true; try { b.LoadSolution(f[sx::choose("file", 0, 2)]); } catch (Refused) { refused = true; } mayRefuse = false; sx::check(refused, "a solution of another problem is refused"); eqv(*b.U, x, "state kept when refused");
}
// ---- comparison of two solutions
static std::map<const double *, int> known;
static int indexOf(const Vector &v) { auto it = known.find(v.GetData()); return it == known.end() ? -1 : it->second; }
static double pairNorm(const GridFunction &u, const GridFunction *o, double p) { const int a = indexOf(u), b = o ? indexOf(*o) : -1; if (p != 2 || a < 0 || (o && b < 0)) { sx::check(false, "norm of known solutions"); return 1.0; } return o ? sx::real("error" + I(a) + "_" + I(b), 0, 1) : sx::real("norm" + I(a), 0.5, 2); }
double mfem::GridFunction::ComputeLpError(const double p, Coefficient &c, Coefficient *, const IntegrationRule *[], const Array<int> *) const { auto *g = dynamic_cast<GridFunctionCoefficient *>(&c); if (!g) { auto *k = dynamic_cast<ConstantCoefficient *>(&c); sx::check(k && k->constant == 0.0, "norm is the distance from zero"); } return pairNorm(*this, g ? g->GetGridFunction() : nullptr, p); }
double mfem::GridFunction::ComputeLpError(const double p, VectorCoefficient &c, Coefficient *, VectorCoefficient *, const IntegrationRule *[]) const { auto *g = dynamic_cast<VectorGridFunctionCoefficient *>(&c); if (!g) { auto *k = dynamic_cast<VectorConstantCoefficient *>(&c); sx::check(k, "norm is the distance from zero"); if (k) for (int i = 0; i < k->GetVec().Size(); i++) sx::check(k->GetVec()[i] == 0.0, "norm is the distance from zero"); } return pairNorm(*this, g ? g->GetGridFunction() : nullptr, p); }
static Redirect redirect2{"_ZNK4mfem12GridFunction14ComputeLpErrorEdRNS_11CoefficientEPS1_PPKNS_15IntegrationRuleEPKNS_5ArrayIiEE", "_ZNK4mfem12GridFunction14ComputeLpErrorEdRNS_17VectorCoefficientEPNS_11CoefficientEPS1_PPKNS_15IntegrationRuleE"};
template <class Sol> static void errors(const S &l)
{
   World2 w = world(); conf(w, false); Sol s; s.InitVariables(); fill(*s.U, "u"); BlockVector t(s.var_offsets); fill(t, "t"); Vector u0(*s.U), t0(t); known.clear(); const int nb = s.us.Size(); for (int k = 0; k < nb; k++) { known[s.us[k]->GetData()] = k; known[t.GetBlock(k).GetData()] = 100 + k; }
   Vector e; s.CompareSolution(t, e); const int nv = s.GetNumVar(); sx::check(e.Size() == nv && nb == nv * s.numSub, l + ": one error per variable");
   for (int v = 0; v < nv; v++) { double a = 0, b = 0; for (int m = 0; m < s.numSub; m++) { const int k = m * nv + v; const double x = sx::real("error" + I(k) + "_" + I(100 + k), 0, 1), y = sx::real("norm" + I(k), 0.5, 2); a += x * x; b += y * y; } sx::eq(e[v], std::sqrt(a) / std::sqrt(b), l + ": relative error of variable " + I(v)); }
   eqv(*s.U, u0, l + ": solution kept"); eqv(t, t0, l + ": compared solution kept");
}
SX_CASE(errors_poisson) { errors<OPoisson>("Poisson"); }
SX_CASE(errors_elasticity) { errors<OElast>("elasticity"); }
SX_CASE(errors_stokes) { errors<OStokes>("Stokes"); }
// ---- views by variable and by subdomain
struct OSort : public OStokes { using MultiBlockSolver::GetVariableVector; using MultiBlockSolver::SetVariableVector; using MultiBlockSolver::SortByVariables; using MultiBlockSolver::SortBySubdomains; };
SX_CASE(sorting)
{
   World2 w = world(); conf(w, false); OSort s; s.InitVariables(); const int N = s.numSub; Array<int> bv(2 * N + 1); bv[0] = 0; for (int k = 0; k < N; k++) { bv[k + 1] = s.u_offsets[k + 1]; bv[N + k + 1] = s.u_offsets.Last() + s.p_offsets[k + 1]; }
   BlockVector g(s.var_offsets), b(bv), h(s.var_offsets), u(s.u_offsets), p(s.p_offsets); fill(g, "g"); b = 5.0; h = 6.0; u = 7.0; p = 8.0; Vector g0(g); s.SortByVariables(g, b); eqv(g, g0, "source kept"); s.SortBySubdomains(b, h); eqv(h, g0, "sorting back gives the original");
   s.GetVariableVector(0, g, u); s.GetVariableVector(1, g, p); for (int m = 0; m < N; m++) for (int v = 0; v < 2; v++) { Vector &a = (v ? p : u).GetBlock(m), &c = b.GetBlock(v * N + m); for (int i = 0; i < a.Size(); i++) { sx::eq(c[i], g0[s.var_offsets[2 * m + v] + i], "sorted by variables"); sx::eq(a[i], g0[s.var_offsets[2 * m + v] + i], "vector of a variable"); } }
   fill(u, "nu"); h = g; s.SetVariableVector(0, u, h); for (int m = 0; m < N; m++) { for (int i = 0; i < u.GetBlock(m).Size(); i++) sx::eq(h.GetBlock(2 * m)[i], u.GetBlock(m)[i], "variable set"); for (int i = 0; i < p.GetBlock(m).Size(); i++) sx::eq(h.GetBlock(2 * m + 1)[i], p.GetBlock(m)[i], "other variable kept"); }
}
// ---- the flow of an advection-diffusion problem is the velocity computed by, or loaded for, the flow solver
struct OFlow : public OAdv { using AdvDiffSolver::flow_coeffs; using AdvDiffSolver::stokes_solver; using AdvDiffSolver::meshes; };
struct FProb : public FlowProblem { FProb(const Prob &p) { static_cast<ParameterizedProblem &>(*this) = p; } };
SX_CASE(flow_field)
{
   World2 w = world(); const int save = sx::choose("save flow", 0, 1), load = sx::choose("load flow", 0, 1), exists = sx::choose("flow file exists", 0, 1); const S ad = ", adv-diff: {peclet_number: 2.0, save_flow: " + S(save ? "true" : "false") + ", load_flow: " + S(load ? "true" : "false") + ", flow_file: flow.h5}"; std::remove("flow.h5"); answer = [](int i) { return sx::real("answer" + I(i)); }; answerConverged = true; directSolver(); function_factory::flow_problem::nu = 1.5; data(2);
   Vector stored; conf(w, true); if (exists) { OStokes s; s.InitVariables(); fill(*s.U, "stored"); stored = *s.U; s.SaveSolution("flow.h5"); }
   conf(w, false, ad); Prob fp0("DZND", 1, true), p("DDNZ", 2, true); FProb fp(fp0); function_factory::advdiff_problem::analytic_flow = false; function_factory::advdiff_problem::flow_problem = &fp; asked = Asked(); OFlow s; s.InitVariables(); s.SetParameterizedProblem(&p); const bool fromFile = load && exists; sx::check(asked.times == (fromFile ? 0 : 1), "the flow is computed unless it is loaded");
   StokesSolver *st = s.stokes_solver; if (!st) { sx::check(false, "flow solver kept"); return; } OStokes *os = static_cast<OStokes *>(st); const int N = s.numSub; Vector want(os->U->Size()); if (fromFile) want = stored; else { int i = 0; for (int v = 0; v < 2; v++) for (int m = 0; m < N; m++) for (int k = os->var_offsets[2 * m + v]; k < os->var_offsets[2 * m + v + 1]; k++) want[k] = answer(i++); }
   eqv(*os->U, want, "flow"); for (int m = 0; m < N; m++) { auto *c = dynamic_cast<VectorGridFunctionCoefficient *>(s.flow_coeffs[m]); sx::check(c && c->GetGridFunction() && c->GetGridFunction()->GetData() == os->U->GetData() + os->var_offsets[2 * m] && c->GetGridFunction()->FESpace()->GetVDim() == 2, "velocity of the subdomain transports"); }
   sx::check(there("flow.h5") == (save || exists), "the flow is saved when asked"); if (there("flow.h5")) { conf(w, false); OStokes t; t.InitVariables(); t.LoadSolution("flow.h5"); eqv(*t.U, save ? want : stored, "flow in the file"); }
}
