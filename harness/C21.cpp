// Full-order systems: what every physics assembles on a decomposed domain is the discretisation of the undecomposed problem
#include "phys.hpp"
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "advdiff_solver.hpp"
#include "stokes_solver.hpp"
#include "redirect.hpp"
#include <cstring>
template <class T> struct Open : public T
{
   using T::RHS; using T::U; using T::us; using T::fes; using T::numSub; using T::var_offsets; using T::domain_offsets; using T::num_vdofs; using T::meshes;
};
struct OPoisson : public Open<PoissonSolver> { using PoissonSolver::mats; using PoissonSolver::globalMat; };
struct OElast : public Open<LinElastSolver> { using LinElastSolver::mats; using LinElastSolver::globalMat; };
struct OAdv : public Open<AdvDiffSolver> { using PoissonSolver::mats; using PoissonSolver::globalMat; };
struct OStokes : public Open<StokesSolver>
{
   using StokesSolver::m_mats; using StokesSolver::b_mats; using StokesSolver::M; using StokesSolver::B; using StokesSolver::Bt; using StokesSolver::systemOp; using StokesSolver::u_offsets; using StokesSolver::p_offsets; using StokesSolver::vblock_offsets; using StokesSolver::pres_dbc; using StokesSolver::pM; using StokesSolver::ufes; using StokesSolver::pfes; using StokesSolver::vels; using StokesSolver::ps;
};
// scenarios: partition, boundary types of the four sides, variant (0: default penalty, 1: no source, 2, 3: the problem had other data before)
struct Scen { int part; const char *kinds; int var; };
static const Scen SC[] = {{0, "DDDD", 0}, {1, "NZDN", 1}, {2, "DNNZ", 2}, {3, "ZD-N", 3}, {4, "N-NN", 2}, {5, "-NDD", 1}, {3, "DZDD", 0}, {2, "NDZ-", 3}, {0, "ZZNZ", 2}, {1, "NZ--D", 2}, {2, "----Z", 3}, {0, "D---N", 2}};
template <class Sol> static void run(Sol &s, Prob &p, Prob *before)
{
   s.InitVariables(); if (before) s.SetParameterizedProblem(before); s.SetParameterizedProblem(&p); s.BuildOperators(); s.SetupBCOperators(); s.Assemble();
}
template <class Sol> static void compare(Sol &s, Parent &pa, const DenseMatrix &A, const Vector &b, const S &l)
{
   sx::check(s.mats.NumRows() == s.numSub && s.mats.NumCols() == s.numSub && s.var_offsets.Size() == s.numSub + 1 && s.U->Size() == s.RHS->Size(), l + " sizes");
   for (int i = 0; i < s.numSub; i++)
   {
      sx::check(s.var_offsets[i + 1] - s.var_offsets[i] == s.fes[i]->GetTrueVSize() && s.num_vdofs[i] == s.fes[i]->GetTrueVSize(), l + " offsets");
      eqv(s.RHS->GetBlock(i), pa.rhs(i, b), l + " right-hand side " + I(i));
      for (int j = 0; j < s.numSub; j++) { DenseMatrix R = reduce(pa, i, pa, j, A); eqs(*s.mats(i, j), R, l + " operator " + I(i, j)); sx::check(&s.globalMat->GetBlock(i, j) == s.mats(i, j), l + " block of the global operator"); }
   }
}
static void poisson(int kind, int order, int scens, bool adv)
{
   const bool dg = adv ? false : (bool)sx::choose("full dg", 0, 1); const Scen sc = SC[sx::choose("scenario", 0, scens - 1)]; World2 w(kind, partOf(sc.part), order, dg); w.configure("solver: {use_amg: false}");
   const int var = sc.var; const bool dflt = var == 0; double sg = -1.0, ka = (order + 1) * (order + 1), pe = 0; if (!dflt) { sg = sx::real("sigma"); ka = sx::real("kappa", 1, 20); w.setReal("discretization", "interface", "sigma", sg); w.setReal("discretization", "interface", "kappa", ka); }
   if (adv) { pe = sx::real("peclet", 0, 5); w.setReal("adv-diff", "peclet_number", nullptr, pe); }
   const S k = sc.kinds; const bool src = var != 1, again = var >= 2; for (int a : ATTR) symLin(BV[a], "g" + I(a), 1); symLin(SRC, "f", 1);
   OPoisson *ps = nullptr; OAdv *as = nullptr; Prob p(k, var * 3, src), q("DNZN", 1, true);
   FiniteElementSpace **fs; Parent pa(w, order, 1); Vector b(pa.f->GetVSize()); b = 0.0; Array<int> mk = w.marker(k, "DZ"); std::vector<FunctionCoefficient> g; FunctionCoefficient f(ssrc); for (int i = 0; i < 4; i++) g.emplace_back(SB[w.func(k, i)]);
   if (src) b += linform(pa.f.get(), [&](LinearForm &l) { l.AddDomainIntegrator(new DomainLFIntegrator(f)); });
   std::vector<Array<int>> one; for (int i = 0; i < 4; i++) { Array<int> m(mk.Size()); m = 0; m[ATTR[i] - 1] = w.kind(k, i) == 'D'; one.push_back(m); }
   b += linform(pa.f.get(), [&](LinearForm &l) { for (int i = 0; i < 4; i++) l.AddBdrFaceIntegrator(new DGDirichletLFIntegrator(g[i], sg, ka), one[i]); });
   std::vector<std::unique_ptr<VectorFunctionCoefficient>> fl; typedef std::function<void(const Vector &, double, Vector &)> VF; const VF ff[4] = {flow<0>, flow<1>, flow<2>, flow<3>}; const bool samefl = adv && var == 1;
   DenseMatrix A = biform(pa.f.get(), [&](BilinearForm &a) { a.AddDomainIntegrator(new DiffusionIntegrator); a.AddInteriorFaceIntegrator(new DGDiffusionIntegrator(sg, ka)); a.AddBdrFaceIntegrator(new DGDiffusionIntegrator(sg, ka), mk); });
   if (adv)
   {
      for (int m = 0; m < w.nsub(); m++) symLin(FLOW[m], "u" + I(m), 2);
      for (int m = 0; m < w.nsub(); m++) { fl.emplace_back(new VectorFunctionCoefficient(2, ff[samefl ? 0 : m])); for (int e : w.elems(m)) { ConvectionIntegrator ci(*fl[m], pe); DenseMatrix em; ci.AssembleElementMatrix(*pa.f->GetFE(e), *w.pm.GetElementTransformation(e), em); Array<int> d; pa.f->GetElementVDofs(e, d); addTo(A, d, d, em, 1.0); } }
      function_factory::advdiff_problem::analytic_flow = true; as = new OAdv; if (samefl) as->SetFlowAtSubdomain(ff[0]); else for (int m = 0; m < as->numSub; m++) as->SetFlowAtSubdomain(ff[m], m); for (int m = 0; m < as->numSub; m++) pa.add(as->fes[m]); run(*as, p, again ? &q : nullptr); compare(*as, pa, A, b, "advection-diffusion"); delete as;
   }
   else { ps = new OPoisson; for (int m = 0; m < ps->numSub; m++) pa.add(ps->fes[m]); run(*ps, p, again ? &q : nullptr); compare(*ps, pa, A, b, "Poisson"); delete ps; }
}
SX_CASE(poisson_quads) { poisson(0, 1, 12, false); }
SX_CASE(poisson_triangles) { poisson(1, 1, 12, false); }
SX_CASE(advdiff_quads) { poisson(0, 1, 12, true); }
static void elast(int kind, int order, int scens, bool variable)
{
   static const Scen EL[] = {{0, "DTND", 0}, {1, "TDDN", 1}, {2, "D-TD", 2}, {3, "NDTN", 3}, {5, "TTTT", 2}, {2, "T---D", 3}, {3, "DDDD", 1}};
   const bool dg = sx::choose("full dg", 0, 1); const Scen sc = EL[sx::choose("scenario", 0, scens - 1)]; const int var = sc.var; const S k = sc.kinds; World2 w(kind, partOf(sc.part), order, dg, variable); w.configure("solver: {use_amg: false}");
   double al = -1.0, ka = (order + 1) * (order + 1); if (var) { al = sx::real("alpha"); ka = sx::real("kappa", 1, 20); w.setReal("discretization", "interface", "alpha", al); w.setReal("discretization", "interface", "kappa", ka); }
   for (int a : ATTR) symLin(BV[a], "g" + I(a), 2); symLin(SRC, "f", 2); if (variable) symLin(MAT, "m", 2, 0.5, 2); else for (int i = 0; i < 2; i++) { MAT.c[i][0] = sx::real("m" + I(i), 0.5, 2); MAT.c[i][1] = MAT.c[i][2] = 0.0; }
   const bool src = var != 1; Prob p(k, var * 3, src), q("DTNT", 1, true); OElast s; Parent pa(w, order, 2); Vector b(pa.f->GetVSize()); b = 0.0;
   FunctionCoefficient la(mat0), mu(mat1); VectorFunctionCoefficient f(2, vsrc); std::vector<std::unique_ptr<VectorFunctionCoefficient>> g; for (int i = 0; i < 4; i++) g.emplace_back(new VectorFunctionCoefficient(2, VB[w.func(k, i)]));
   std::vector<Array<int>> one; Array<int> mk = w.marker(k, "D"); for (int i = 0; i < 4; i++) { Array<int> m(mk.Size()); m = 0; m[ATTR[i] - 1] = 1; one.push_back(m); }
   b += linform(pa.f.get(), [&](LinearForm &l) { if (src) l.AddDomainIntegrator(new VectorDomainLFIntegrator(f));
      for (int i = 0; i < 4; i++) if (w.kind(k, i) == 'D') l.AddBdrFaceIntegrator(new DGElasticityDirichletLFIntegrator(*g[i], la, mu, al, ka), one[i]); else if (w.kind(k, i) == 'T') l.AddBdrFaceIntegrator(new VectorBoundaryLFIntegrator(*g[i]), one[i]); });
   DenseMatrix A = biform(pa.f.get(), [&](BilinearForm &a) { a.AddDomainIntegrator(new ElasticityIntegrator(la, mu)); a.AddInteriorFaceIntegrator(new DGElasticityIntegrator(la, mu, al, ka)); a.AddBdrFaceIntegrator(new DGElasticityIntegrator(la, mu, al, ka), mk); });
   for (int m = 0; m < s.numSub; m++) pa.add(s.fes[m]); run(s, p, var >= 2 ? &q : nullptr); compare(s, pa, A, b, "elasticity");
}
SX_CASE(elasticity_quads) { elast(0, 1, 7, false); }
SX_CASE(elasticity_triangles) { elast(1, 1, 7, true); }
static void placed(const SparseMatrix &g, const Array2D<SparseMatrix *> &b, const Array<int> &r, const Array<int> &c, const S &l)
{
   sx::check(g.Height() == r.Last() && g.Width() == c.Last(), l + " size"); DenseMatrix G = dense(g);
   for (int i = 0; i < b.NumRows(); i++) for (int j = 0; j < b.NumCols(); j++) { DenseMatrix d = dense(*b(i, j)); for (int x = 0; x < d.Height(); x++) for (int y = 0; y < d.Width(); y++) sx::eq(G(r[i] + x, c[j] + y), d(x, y), l + " block " + I(i, j)); }
}
static void stokes(int kind, int order, int scens)
{
   static const Scen ST[] = {{0, "DZND", 0}, {2, "Z-DN", 1}, {3, "NDZN", 2}, {1, "-D--N", 3}, {5, "DNDZ", 1}, {2, "NNNN", 2}, {0, "----N", 0}};
   const bool dg = sx::choose("full dg", 0, 1); const Scen sc = ST[sx::choose("scenario", 0, scens - 1)]; const int var = sc.var, uo = order + 1; const S k = sc.kinds; World2 w(kind, partOf(sc.part), order, dg); w.configure("solver: {use_amg: false}");
   double sg = -1.0, ka = (uo + 1) * (uo + 1), nu = sx::real("nu", 0.5, 2); function_factory::flow_problem::nu = nu; if (var) { sg = sx::real("sigma"); ka = sx::real("kappa", 1, 20); w.setReal("discretization", "interface", "sigma", sg); w.setReal("discretization", "interface", "kappa", ka); }
   for (int a : ATTR) symLin(BV[a], "g" + I(a), 2); symLin(SRC, "f", 2);
   const bool src = var != 1; Prob p(k, var * 3, src), q("DNZN", 1, true); OStokes s; Parent pu(w, uo, 2), p1(w, uo, 1), pp(w, order, 1); const int n = p1.f->GetVSize(); Vector b(2 * n), g(pp.f->GetVSize()); b = 0.0; g = 0.0; Array<int> mk = w.marker(k, "DZ"); VectorFunctionCoefficient f(2, vsrc);
   if (src) b += linform(pu.f.get(), [&](LinearForm &l) { l.AddDomainIntegrator(new VectorDomainLFIntegrator(f)); });
   for (int i = 0; i < 4; i++) if (w.kind(k, i) == 'D')
   {
      Array<int> one(mk.Size()); one = 0; one[ATTR[i] - 1] = 1; const int fn = w.func(k, i); addFlux(pp, ATTR[i], [&](int c, const Vector &x) { return lin(BV[fn], c, x); }, 2 * uo + 1, g);
      for (int c = 0; c < 2; c++) { FunctionCoefficient gc([&](const Vector &x) { return lin(BV[fn], c, x); }); Vector v = linform(p1.f.get(), [&](LinearForm &l) { l.AddBdrFaceIntegrator(new DGDirichletLFIntegrator(gc, sg, ka), one); }); for (int j = 0; j < n; j++) b[c * n + j] += nu * v[j]; }
   }
   DenseMatrix M = byComponent(biform(p1.f.get(), [&](BilinearForm &a) { a.AddDomainIntegrator(new DiffusionIntegrator); a.AddInteriorFaceIntegrator(new DGDiffusionIntegrator(sg, ka)); a.AddBdrFaceIntegrator(new DGDiffusionIntegrator(sg, ka), mk); }), nu), B = divergence(pu, pp, mk, 2 * uo + 1);
   for (int m = 0; m < s.numSub; m++) { pu.add(s.ufes[m]); pp.add(s.pfes[m]); } run(s, p, var >= 2 ? &q : nullptr); const S l = "Stokes"; const int N = s.numSub;
   sx::check(s.pres_dbc, l + " pressure level is set by the boundary"); sx::check(s.var_offsets.Size() == 2 * N + 1 && s.u_offsets.Size() == N + 1 && s.p_offsets.Size() == N + 1 && s.domain_offsets.Size() == N + 1, l + " sizes");
   for (int i = 0; i < N; i++)
   {
      const int nu_ = s.ufes[i]->GetVSize(), np_ = s.pfes[i]->GetVSize(); sx::check(s.var_offsets[2 * i + 1] - s.var_offsets[2 * i] == nu_ && s.var_offsets[2 * i + 2] - s.var_offsets[2 * i + 1] == np_ && s.u_offsets[i + 1] - s.u_offsets[i] == nu_ && s.p_offsets[i + 1] - s.p_offsets[i] == np_ && s.domain_offsets[i + 1] == s.var_offsets[2 * i + 2] && s.num_vdofs[i] == nu_ + np_, l + " offsets");
      eqv(s.RHS->GetBlock(2 * i), pu.rhs(i, b), l + " momentum right-hand side " + I(i)); eqv(s.RHS->GetBlock(2 * i + 1), pp.rhs(i, g), l + " continuity right-hand side " + I(i));
      for (int j = 0; j < N; j++) { DenseMatrix R = reduce(pu, i, pu, j, M), D = reduce(pp, i, pu, j, B); eqs(*s.m_mats(i, j), R, l + " viscous operator " + I(i, j)); eqs(*s.b_mats(i, j), D, l + " divergence " + I(i, j)); }
   }
   placed(*s.M, s.m_mats, s.u_offsets, s.u_offsets, l + " viscous operator"); placed(*s.B, s.b_mats, s.p_offsets, s.u_offsets, l + " divergence"); DenseMatrix Bt = dense(*s.Bt), Bd = dense(*s.B); Bd.Transpose(); eqm(Bt, Bd, l + " gradient is the transpose");
   sx::check(&s.systemOp->GetBlock(0, 0) == s.M && &s.systemOp->GetBlock(1, 0) == s.B && &s.systemOp->GetBlock(0, 1) == s.Bt && s.systemOp->IsZeroBlock(1, 1) && s.vblock_offsets[1] == s.u_offsets.Last() && s.vblock_offsets[2] == s.u_offsets.Last() + s.p_offsets.Last(), l + " saddle-point system");
   sx::check(s.pM, l + " pressure mass"); DenseMatrix pm = dense(*s.pM); DenseMatrix MM = biform(pp.f.get(), [&](BilinearForm &a) { a.AddDomainIntegrator(new MassIntegrator); }); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i == j) { DenseMatrix R = reduce(pp, i, pp, i, MM); for (int x = 0; x < R.Height(); x++) for (int y = 0; y < R.Width(); y++) sx::eq(pm(s.p_offsets[i] + x, s.p_offsets[i] + y), R(x, y), l + " pressure mass"); }
}
SX_CASE(stokes_triangles) { stokes(1, 1, 7); }
SX_CASE(stokes_quads) { stokes(0, 1, 2); }
// velocities given on the whole boundary: the correction makes the net flux zero, whichever sides are at rest
static void incompressible(int kind)
{
   static const Scen ST[] = {{0, "DDDD", 0}, {2, "DZDD", 1}, {3, "ZDZD", 2}, {1, "ZZZD", 3}, {5, "DDZZ", 5}, {2, "----D", 0}, {3, "DDDZ", 6}};
   const Scen sc = ST[sx::choose("scenario", 0, 6)]; const S k = sc.kinds; World2 w(kind, partOf(sc.part), 1, false); w.configure("solver: {use_amg: false}"); function_factory::flow_problem::nu = sx::real("nu", 0.5, 2); for (int a : ATTR) symLin(BV[a], "g" + I(a), 2); symLin(SRC, "f", 2);
   Prob p(k, sc.var, true), q("NDZN", 1, true); for (int b = 0; b < p.battr.Size(); b++) if (p.bdr_type[b] == BT::DIRICHLET) p.vector_bdr_ptr[b] = FB[p.battr[b] < 0 ? 1 : p.battr[b]];
   OStokes s; s.InitVariables(); if (sc.var % 2) s.SetParameterizedProblem(&q); function_factory::flow_problem::del_u = 3.5; s.SetParameterizedProblem(&p); sx::check(!s.pres_dbc, "incompressible pressure level is free"); Vector x(2), n(2), y(2), c(2), d(2); c = 0.0; double net = 0, area = 0;
   for (int b = 0; b < w.pm.GetNBE(); b++) for (int i = 0; i < 4; i++) if (w.pm.GetBdrAttribute(b) == ATTR[i] && w.kind(k, i) == 'D')
   { FaceElementTransformations *T = w.pm.GetBdrFaceTransformations(b); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 5); for (int j = 0; j < ir.GetNPoints(); j++) { const IntegrationPoint &ip = ir.IntPoint(j); T->SetAllIntPoints(&ip); CalcOrtho(T->Jacobian(), n); T->Elem1->Transform(T->GetElement1IntPoint(), x); FB[w.func(k, i)](x, 0.0, y); net += ip.weight * (y[0] * n[0] + y[1] * n[1]); const double ds = std::sqrt(n[0] * n[0] + n[1] * n[1]) * ip.weight; area += ds; c.Add(ds, x); } }
   if (!area) return; sx::eq(net, 0.0, "incompressible net flux through the boundary"); c /= area; for (int i = 0; i < 2; i++) sx::eq(function_factory::flow_problem::x0[i], c[i], "incompressible centre of the correction");
}
SX_CASE(incompressible_triangles) { incompressible(1); }
SX_CASE(incompressible_quads) { incompressible(0); }
