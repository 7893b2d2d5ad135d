// Reduced systems: elements of components, boundaries and ports assemble to the projection of the full-order system of the composed domain
#include "rom.hpp"
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "stokes_solver.hpp"
struct OPoisson : public Open<PoissonSolver> { using PoissonSolver::mats; DenseMatrix block(int m, int, int n, int) { return dense(*mats(m, n)); } };
struct OElast : public Open<LinElastSolver> { using LinElastSolver::mats; DenseMatrix block(int m, int, int n, int) { return dense(*mats(m, n)); } };
struct OStokes : public Open<StokesSolver>
{
   using StokesSolver::m_mats; using StokesSolver::b_mats;
   DenseMatrix block(int m, int v, int n, int w) { if (!v && !w) return dense(*m_mats(m, n)); if (v && !w) return dense(*b_mats(m, n)); if (!v) { DenseMatrix d = dense(*b_mats(n, m)); d.Transpose(); return d; } DenseMatrix z(this->fes[2 * m + 1]->GetVSize(), this->fes[2 * n + 1]->GetVSize()); z = 0.0; return z; }
};
static void still(const Vector &x, double, Vector &y) { y = 0.0; Vector d(2); function_factory::flow_problem::flux(x, d); y -= d; }   // enclosed flow: the corrected boundary flow vanishes
template <class Sol> static void reduced(World2 *sub, int kind, std::vector<S> vars, bool separable, int comps, int kinds, int worlds, const char *pen, const S &l, std::function<void()> data)
{
   Conf c; c.vars = vars; const int nv = vars.size(); c.sub = sub; if (sub) { for (int m = 0; m < sub->nsub(); m++) { c.w.names.push_back("comp" + I(m)); c.w.types.push_back(m); } } else c.w = compose(kind, worlds < 2 ? 2 : sx::choose("composition", 0, worlds - 1)); c.sep = separable ? sx::choose("separate variables", 0, 1) : false; c.byvar = c.sep && nv > 1 ? sx::choose("ordered by variable", 0, 1) : false; c.dg = kind == 1; c.kinds = KINDS[c.dg && nv == 2 ? 1 : sx::choose("boundary types", 0, kinds - 1)];
   { const char *L[] = {"global", "component", "none"}; c.level = L[sub ? 2 * sx::choose("level", 0, 1) : sx::choose("level", 0, 2)]; } c.nsup = 1; c.sg = sx::real("sigma"); c.ka = sx::real("kappa", 1, 20); if (!sub) write(c.w); for (int a : ATTR) symLin(BV[a], "g" + I(a), comps); symLin(SRC, "f", comps); data();
   conf(c); penalty(c, pen); Prob p(c.kinds, 1, true); if (nv == 2 && c.kinds.find_first_of("NT-") == S::npos) for (int b = 0; b < p.battr.Size(); b++) if (p.bdr_type[b] == BT::DIRICHLET) p.vector_bdr_ptr[b] = still;
   Sol f; open(f, p); f.BuildOperators(); f.SetupBCOperators(); f.Assemble(); Bases B(c, f, 2);
   // what a training run does
   if (c.level != "none") { conf(c); penalty(c, pen); Sol t; open(t, p); t.BuildOperators(); t.SetupBCOperators(); t.LoadReducedBasis(); if (c.level == "component") { t.BuildROMLinElems(); t.SaveROMLinElems("op.h5"); } else { t.Assemble(); t.ProjectOperatorOnReducedBasis(); t.SaveROMOperator("op.h5"); } }
   // and a run with the reduced model
   conf(c); penalty(c, pen); Sol s; open(s, p); s.BuildRHSOperators(); s.SetupRHSBCOperators(); s.AssembleRHS(); s.LoadReducedBasis(); if (c.level == "component") { s.LoadROMLinElems("op.h5"); s.AssembleROMMat(); } else if (c.level == "global") s.LoadROMOperatorFromFile("op.h5"); else { s.BuildDomainOperators(); s.SetupDomainBCOperators(); s.AssembleOperator(); s.ProjectOperatorOnReducedBasis(); }
   s.ProjectRHSOnReducedBasis(); OHandler *h = static_cast<OHandler *>(static_cast<MFEMROMHandler *>(s.rom_handler)); const int N = f.numSub, nb = c.sep ? nv : 1; auto idx = [&](int m, int v) { return c.byvar ? m + v * N : m * nb + v; }; const Array<int> &o = *s.rom_handler->GetBlockOffsets(); sx::check(o.Size() == N * nb + 1 && h->romMat->NumRowBlocks() == N * nb && h->romMat->NumColBlocks() == N * nb, l + ": blocks");
   for (int m = 0; m < N; m++) for (int v = 0; v < nb; v++)
   {
      const int i = idx(m, v); const DenseMatrix &Bi = B.of(c, m, v); sx::check(o[i + 1] - o[i] == Bi.Width() && h->romMat->RowOffsets()[i + 1] - h->romMat->RowOffsets()[i] == Bi.Width(), l + ": size of a block");
      for (int n = 0; n < N; n++) for (int w = 0; w < nb; w++) { const DenseMatrix want = rtap(Bi, whole(f, c, m, v, n, w), B.of(c, n, w)); const int j = idx(n, w); DenseMatrix got(want.Height(), want.Width()); got = 0.0; if (!h->romMat->IsZeroBlock(i, j)) h->romMat->GetBlock(i, j).ToDenseMatrix(got); eqm(got, want, l + ": reduced operator " + I(m, n) + " " + I(v, w)); }
      const Vector &R = *f.RHS; const int at = c.sep ? f.var_offsets[m * nv + v] : f.domain_offsets[m]; Vector r(Bi.Width()); for (int k = 0; k < r.Size(); k++) { double x = 0; for (int q = 0; q < Bi.Height(); q++) x += Bi(q, k) * R[at + q]; r[k] = x; } eqv(h->reduced_rhs->GetBlock(i), r, l + ": reduced right-hand side");
   }
   asked = Asked(); answer = [](int i) { return sx::real("answer" + I(i)); }; s.SolveROM(); sx::check(asked.times == 1 && asked.b.Size() == o.Last(), l + ": one reduced solve"); eqv(asked.b, *h->reduced_rhs, l + ": right-hand side solved for");
   for (int m = 0; m < N; m++) for (int v = 0; v < nb; v++) { const int i = idx(m, v); const DenseMatrix &Bi = B.of(c, m, v); const int at = c.sep ? f.var_offsets[m * nv + v] : f.domain_offsets[m]; for (int q = 0; q < Bi.Height(); q++) { double x = 0; for (int k = 0; k < Bi.Width(); k++) x += Bi(q, k) * answer(o[i] + k); sx::eq((*s.U)[at + q], x, l + ": lifted solution"); } }
}
static void none() {}
static void materials() { for (int i = 0; i < 2; i++) { MAT.c[i][0] = sx::real(i ? "mu" : "lambda", 0.5, 2); MAT.c[i][1] = MAT.c[i][2] = 0.0; } }
static void viscosity() { function_factory::flow_problem::nu = sx::real("nu", 0.5, 2); }
SX_CASE(poisson_quads) { reduced<OPoisson>(nullptr, 0, {"solution"}, true, 1, 5, 4, "sigma", "Poisson", none); }
SX_CASE(poisson_triangles) { reduced<OPoisson>(nullptr, 1, {"solution"}, false, 1, 2, 4, "sigma", "Poisson", none); }
SX_CASE(elasticity_quads) { reduced<OElast>(nullptr, 0, {"solution"}, false, 2, 5, 3, "alpha", "elasticity", materials); }
SX_CASE(elasticity_triangles) { reduced<OElast>(nullptr, 1, {"solution"}, false, 2, 2, 2, "alpha", "elasticity", materials); }
SX_CASE(stokes_quads) { reduced<OStokes>(nullptr, 0, {"vel", "pres"}, true, 2, 2, 3, "sigma", "Stokes", viscosity); }
SX_CASE(stokes_boundaries) { reduced<OStokes>(nullptr, 0, {"vel", "pres"}, true, 2, 5, 1, "sigma", "Stokes", viscosity); }
SX_CASE(stokes_triangles) { reduced<OStokes>(nullptr, 1, {"vel", "pres"}, true, 2, 1, 2, "sigma", "Stokes", viscosity); }
template <class Sol> static void decomposed(int kind, std::vector<S> vars, bool separable, int comps, int kinds, const char *pen, const S &l, std::function<void()> data) { World2 w(kind, partOf(2 + sx::choose("partition", 0, 1)), 1, kind == 1); reduced<Sol>(&w, kind, vars, separable, comps, kinds, 0, pen, l, data); }
SX_CASE(poisson_decomposed) { decomposed<OPoisson>(0, {"solution"}, true, 1, 3, "sigma", "Poisson", none); }
SX_CASE(elasticity_decomposed) { decomposed<OElast>(1, {"solution"}, false, 2, 2, "alpha", "elasticity", materials); }
SX_CASE(stokes_decomposed) { decomposed<OStokes>(0, {"vel", "pres"}, true, 2, 1, "sigma", "Stokes", viscosity); }
// supremizers: the gradients of the pressure basis, orthonormalised after the velocity basis
static void supremizer(bool tooMany)
{
   Conf c; c.vars = {"vel", "pres"}; c.w = compose(0, tooMany ? 0 : sx::choose("composition", 0, 1) * 2); c.sep = true; c.byvar = sx::choose("ordered by variable", 0, 1); c.dg = sx::choose("full dg", 0, 1); c.kinds = "NDDN"; c.level = "none"; c.nsup = tooMany ? 2 + sx::choose("excess", 0, 1) : 1; c.sg = -1; c.ka = 4; write(c.w); for (int a : ATTR) for (auto &x : BV[a].c) for (double &y : x) y = 0.5;
   conf(c); Prob p(c.kinds, 1, false); Conf one = c; one.nsup = 1; OStokes f; open(f, p); Bases B(one, f, 0);
   const size_t T = c.w.names.size(); for (size_t t = 0; t < T; t++) { CAROM::Matrix &m = CAROM::model::bases()["base_" + c.w.names[t] + "_pres"]; DenseMatrix &d = B.B[c.w.names[t] + "_pres"]; m(1, 0) = d(1, 0) = sx::real("p" + I(t), 1, 2); std::remove(("base_" + c.w.names[t] + "_sup.h5").c_str()); }
   bool refused = false; conf(c); { OStokes t; open(t, p); t.rom_handler->LoadReducedBasis(); mayRefuse = tooMany; try { t.EnrichSupremizer(); } catch (Refused) { refused = true; } mayRefuse = false; }
   if (tooMany) { sx::check(refused, "more supremizers than pressure basis vectors are refused"); return; }
   OStokes s; open(s, p); s.LoadReducedBasis(); OHandler *h = static_cast<OHandler *>(static_cast<MFEMROMHandler *>(s.rom_handler));
   for (size_t t = 0; t < T; t++)
   {
      const DenseMatrix &P = B.B[c.w.names[t] + "_pres"]; DenseMatrix U0 = B.B[c.w.names[t] + "_vel"]; const int k = U0.Width() - 1, n = U0.Height(); DenseMatrix U(n, k), W(n, 1), *got; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) U(i, j) = U0(i, j);
      Mesh *mesh = f.topol_handler->GetComponentMesh(t); FiniteElementSpace u(mesh, f.fes[0]->FEColl(), 2), q(mesh, f.fes[1]->FEColl(), 1); MixedBilinearFormDGExtension b(&u, &q); ConstantCoefficient minus(-1.0); b.AddDomainIntegrator(new VectorDivergenceIntegrator(minus)); if (c.dg) b.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); b.Assemble(0); b.Finalize(0); DenseMatrix D = dense(b.SpMat());
      for (int i = 0; i < n; i++) { double x = 0; for (int j = 0; j < P.Height(); j++) x += D(j, i) * P(j, 0); W(i, 0) = x; }
      Orthonormalize(U, W); h->GetReferenceBasis(2 * t, got); sx::check(got->Width() == k + 1 && h->num_ref_basis[2 * t] == k + 1, "one supremizer"); for (int i = 0; i < n; i++) { for (int j = 0; j < k; j++) sx::eq((*got)(i, j), U(i, j), "velocity basis kept"); sx::eq((*got)(i, k), W(i, 0), "supremizer"); }
   }
}
SX_CASE(supremizer) { supremizer(false); }
SX_CASE(supremizer_refused) { supremizer(true); }
