// Boundary operators and loads: weak boundary conditions are consistent, loads are the integrals they denote,
// and the mixed discontinuous form is the sum of its marked parts
#include "nl.hpp"
#include "dg_bilinear.hpp"
#include "dg_linear.hpp"
#include "dg_mixed_bilin.hpp"
// data linear in space: v_c(x) = a_c + sum_k b_ck x_k
struct Lin : public VectorCoefficient
{
   int n, d; std::vector<double> a;
   Lin(const S &nm, int comps, int dim, double lo = -1, double hi = 1) : VectorCoefficient(comps), n(comps), d(dim) { for (int i = 0; i < n * (d + 1); i++) a.push_back(sx::real(nm + I(i), lo, hi)); }
   double at(int c, const Vector &x) const { double s = a[c * (d + 1)]; for (int k = 0; k < d; k++) s += a[c * (d + 1) + 1 + k] * x[k]; return s; }
   double slope(int c, int k) const { return a[c * (d + 1) + 1 + k]; }
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override { double xd[3]; Vector x(xd, d); T.Transform(ip, x); v.SetSize(n); for (int c = 0; c < n; c++) v[c] = at(c, x); }
};
struct Sca : public Coefficient { std::vector<double> a; Sca(const S &n, int dim, double lo, double hi) { for (int i = 0; i <= dim; i++) a.push_back(i ? 0.0625 * i : sx::real(n, lo, hi)); }
   double at(const Vector &x) { double s = a[0]; for (int k = 0; k < x.Size(); k++) s += a[k + 1] * x[k]; return s; }
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { double xd[3]; Vector x(xd, a.size() - 1); T.Transform(ip, x); return at(x); } };
struct Bf { Mesh m; int dim; FaceElementTransformations *T; L2_FECollection fec; FiniteElementSpace fes; const FiniteElement *el; int nd;
   Bf(const Mesh &mm, int order, int be) : m(mm), dim(mm.Dimension()), T(m.GetBdrFaceTransformations(be)), fec(order, dim, BasisType::GaussLobatto), fes(&m, &fec, dim), el(fes.GetFE(T->Elem1No)), nd(el->GetDof()) {}
   Vector phys() { double xd[3]; Vector x(xd, dim), r; T->Elem1->Transform(T->GetElement1IntPoint(), x); r = x; return r; } };
// int_F (f . v) with f(x, n): vector load in component-blocked numbering, n not normalised (carries the surface measure)
template <class F> Vector load(Bf &b, int comps, const IntegrationRule &ir, F f)
{
   Vector r(comps * b.nd); r = 0.0;
   for (int p = 0; p < ir.GetNPoints(); p++)
   {
      const IntegrationPoint &ip = ir.IntPoint(p); b.T->SetAllIntPoints(&ip); Vector sh(b.nd), n(b.dim), v(comps); CalcOrtho(b.T->Jacobian(), n); b.el->CalcShape(b.T->GetElement1IntPoint(), sh); f(b.phys(), n, v);
      for (int c = 0; c < comps; c++) for (int i = 0; i < b.nd; i++) r[c * b.nd + i] += ip.weight * v[c] * sh[i];
   }
   return r;
}
// ---- weak Dirichlet condition for vector diffusion: for data that is the trace of u, operator(u) - load = -(mu du/dn, v)
static void dirichlet(const Mesh &m, int order, int be)
{
   Bf b(m, order, be); const int d = b.dim; double al = sx::real("alpha", -1, 1), ka = sx::real("kappa", 1, 20); Sca mu("mu", d, 0.5, 2); Lin g("g", d, d);
   const IntegrationRule &ir = IntRules.Get(b.T->GetGeometryType(), 2 * order + 2);
   DGVectorDiffusionIntegrator A(mu, al, ka); A.SetIntRule(&ir); DenseMatrix M; A.AssembleFaceMatrix(*b.el, *b.el, *b.T, M);
   DGVectorDirichletLFIntegrator L(g, mu, al, ka); L.SetIntRule(&ir); Vector r; L.AssembleRHSElementVect(*b.el, *b.T, r);
   Vector x(d * b.nd); for (int i = 0; i < b.nd; i++) { double xd[3]; Vector p(xd, d); b.T->Elem1->Transform(b.el->GetNodes().IntPoint(i), p); for (int c = 0; c < d; c++) x[c * b.nd + i] = g.at(c, p); }
   Vector res(x.Size()); for (int i = 0; i < x.Size(); i++) { double s = -r[i]; for (int j = 0; j < x.Size(); j++) s += M(i, j) * x[j]; res[i] = s; }
   Vector nat = load(b, d, ir, [&](const Vector &p, const Vector &n, Vector &v) { for (int c = 0; c < d; c++) { double s = 0; for (int k = 0; k < d; k++) s += g.slope(c, k) * n[k]; v[c] = -mu.at(p) * s; } });
   eqv(res, nat, "weak Dirichlet condition is consistent");
   // the load itself: alpha (g, mu dv/dn) + kappa (mu/h g, v), 1/h = |n|/det J
   Vector z(r.Size()); z = 0.0;
   for (int p = 0; p < ir.GetNPoints(); p++)
   {
      const IntegrationPoint &ip = ir.IntPoint(p); b.T->SetAllIntPoints(&ip); Vector sh(b.nd), n(d); DenseMatrix ds(b.nd, d); CalcOrtho(b.T->Jacobian(), n); const IntegrationPoint &e = b.T->GetElement1IntPoint(); b.el->CalcShape(e, sh); b.el->CalcPhysDShape(*b.T->Elem1, ds);
      Vector q = b.phys(); double w = ip.weight * mu.at(q), h = (n * n) / b.T->Elem1->Weight();
      for (int c = 0; c < d; c++) for (int i = 0; i < b.nd; i++) { double dn = 0; for (int k = 0; k < d; k++) dn += ds(i, k) * n[k]; z[c * b.nd + i] += w * g.at(c, q) * (al * dn + ka * h * sh[i]); }
   }
   eqv(r, z, "weak Dirichlet load");
   // no penalty at all is a valid choice
   DGVectorDiffusionIntegrator A0(mu, al, 0.0); A0.SetIntRule(&ir); DenseMatrix M0; A0.AssembleFaceMatrix(*b.el, *b.el, *b.T, M0); DGVectorDirichletLFIntegrator L0(g, mu, al, 0.0); L0.SetIntRule(&ir); Vector r0; L0.AssembleRHSElementVect(*b.el, *b.T, r0);
   for (int i = 0; i < x.Size(); i++) { double s = -r0[i]; for (int j = 0; j < x.Size(); j++) s += M0(i, j) * x[j]; sx::eq(s, nat[i], "weak Dirichlet condition without penalty[" + I(i) + "]"); }
}
SX_CASE(dirichlet_tri) { dirichlet(baseMesh(1, 1, 1), 1, sx::choose("face", 0, 3)); }
SX_CASE(dirichlet_quad) { dirichlet(baseMesh(0, 1, 1), 1, sx::choose("face", 0, 3)); }
SX_CASE(dirichlet_tri2) { dirichlet(baseMesh(1, 1, 1), 2, 0); }
SX_CASE(dirichlet_tet) { dirichlet(baseMesh(3, 1, 1, 1), 1, sx::choose("face", 0, 2)); }
SX_CASE_THOROUGH(dirichlet_hex) { dirichlet(baseMesh(2, 1, 1, 1), 1, sx::choose("face", 0, 5)); }
// ---- interior faces of the vector diffusion form, against MFEM's scalar form
SX_CASE(vecdiff_interior)
{
   Mesh m = baseMesh(1, 2, 1); L2_FECollection fec(1, 2, BasisType::GaussLobatto); FiniteElementSpace f1(&m, &fec, 1), f2(&m, &fec, 2); double al = sx::real("alpha", -1, 1), ka = sx::real("kappa", 1, 20); Sca mu("mu", 2, 0.5, 2);
   for (int f = 0; f < m.GetNumFaces(); f++)
   {
      FaceElementTransformations *T = m.GetInteriorFaceTransformations(f); if (!T) continue;
      const FiniteElement &a = *f1.GetFE(T->Elem1No), &b = *f1.GetFE(T->Elem2No); const int n1 = a.GetDof(), n2 = b.GetDof(); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 3);
      DGVectorDiffusionIntegrator A(mu, al, ka); A.SetIntRule(&ir); DenseMatrix M; A.AssembleFaceMatrix(a, b, *T, M); Vector x = vec(2 * (n1 + n2), "x" + I(f) + "_"), y(x.Size()); y = 0.0;
      for (int p = 0; p < ir.GetNPoints(); p++)
      {
         const IntegrationPoint &ip = ir.IntPoint(p); T->SetAllIntPoints(&ip); Vector s1(n1), s2(n2), n(2); DenseMatrix d1(n1, 2), d2(n2, 2); CalcOrtho(T->Jacobian(), n); a.CalcShape(T->GetElement1IntPoint(), s1); b.CalcShape(T->GetElement2IntPoint(), s2); a.CalcPhysDShape(*T->Elem1, d1); b.CalcPhysDShape(*T->Elem2, d2);
         double q1 = mu.Eval(*T->Elem1, T->GetElement1IntPoint()), q2 = mu.Eval(*T->Elem2, T->GetElement2IntPoint()), nn = n * n, pen = ka * 0.5 * nn * (q1 / T->Elem1->Weight() + q2 / T->Elem2->Weight());
         for (int c = 0; c < 2; c++)
         {
            const double *x1 = x.GetData() + c * n1, *x2 = x.GetData() + 2 * n1 + c * n2; double j = 0, fl = 0;
            for (int i = 0; i < n1; i++) { j += s1[i] * x1[i]; fl += 0.5 * q1 * (d1(i, 0) * n[0] + d1(i, 1) * n[1]) * x1[i]; } for (int i = 0; i < n2; i++) { j -= s2[i] * x2[i]; fl += 0.5 * q2 * (d2(i, 0) * n[0] + d2(i, 1) * n[1]) * x2[i]; }
            for (int i = 0; i < n1; i++) y[c * n1 + i] += ip.weight * (-fl * s1[i] + al * j * 0.5 * q1 * (d1(i, 0) * n[0] + d1(i, 1) * n[1]) + pen * j * s1[i]);
            for (int i = 0; i < n2; i++) y[2 * n1 + c * n2 + i] += ip.weight * (fl * s2[i] + al * j * 0.5 * q2 * (d2(i, 0) * n[0] + d2(i, 1) * n[1]) - pen * j * s2[i]);
         }
      }
      for (int i = 0; i < y.Size(); i++) { double s = 0; for (int j = 0; j < y.Size(); j++) s += M(i, j) * x[j]; sx::eq(s, y[i], "interior penalty form of vector diffusion, face " + I(f) + I(i, 0)); }
   }
}
// ---- loads.  kind 0: (g.n, q)  1: (F n, v)  2: (z (g.n) g, v)  3: Lax-Friedrichs (z (g.n/2 - |g.n|) g, v)
static LinearFormIntegrator *mkL(int k, Lin &g, Sca *z) { if (k == 0) return new DGBoundaryNormalLFIntegrator(g); if (k == 1) return new BoundaryNormalStressLFIntegrator(g); if (k == 2) return new DGBdrTemamLFIntegrator(g, z); return new DGBdrLaxFriedrichsLFIntegrator(g, z); }
static void loads(int k, const Mesh &m, int order, int be, bool wz = false)
{
   Bf b(m, order, be); const int d = b.dim; Lin g("g", k == 1 ? d * d : d, d, k == 3 ? 0.25 : -1, 1); Sca z("z", d, 0.5, 2); LinearFormIntegrator *L = mkL(k, g, wz ? &z : nullptr);
   const IntegrationRule &ir = IntRules.Get(b.T->GetGeometryType(), k == 3 ? 2 : 2 * order + 2); L->SetIntRule(&ir); Vector r; r.SetSize(1); r = 3.0; L->AssembleRHSElementVect(*b.el, *b.T, r);
   auto f = [&](const Vector &p, const Vector &n, Vector &v) {
      double s = 0, w = wz ? z.at(p) : 1.0; if (k != 1) for (int c = 0; c < d; c++) s += g.at(c, p) * n[c];
      if (k == 0) v[0] = s; else if (k == 1) for (int c = 0; c < d; c++) { v[c] = 0; for (int l = 0; l < d; l++) v[c] += g.at(c + d * l, p) * n[l]; }
      else if (k == 2) for (int c = 0; c < d; c++) v[c] = w * s * g.at(c, p); else { double a = s < 0 ? -s : s; for (int c = 0; c < d; c++) v[c] = w * (0.5 * s - a) * g.at(c, p); } };
   eqv(r, load(b, k == 0 ? 1 : d, ir, f), "boundary load is the integral of the data");
   if (k == 3) return;
   // default rule: exact for affine faces and linear data
   LinearFormIntegrator *L2 = mkL(k, g, nullptr); Vector r2; L2->AssembleRHSElementVect(*b.el, *b.T, r2); wz = false;
   if (k < 2) eqv(r2, load(b, k == 0 ? 1 : d, IntRules.Get(b.T->GetGeometryType(), 2 * order + 2), f), "default rule is exact for linear data");
}
SX_CASE(load_normal) { int e = sx::choose("face", 0, 3); loads(0, baseMesh(1, 1, 1), 1, e); }
SX_CASE(load_normal_quad) { loads(0, baseMesh(0, 1, 1), 1, sx::choose("face", 0, 3)); }
SX_CASE(load_stress) { loads(1, baseMesh(1, 1, 1), 1, sx::choose("face", 0, 3)); }
SX_CASE(load_stress_tet) { loads(1, baseMesh(3, 1, 1, 1), 1, 2); }
SX_CASE(load_temam) { loads(2, baseMesh(1, 1, 1), 1, sx::choose("face", 0, 3), sx::choose("weight", 0, 1)); }
SX_CASE(load_temam2) { loads(2, baseMesh(0, 1, 1), 2, 1, true); }
SX_CASE(load_lf) { loads(3, baseMesh(1, 1, 1), 1, sx::choose("face", 0, 3), sx::choose("weight", 0, 1)); }
// on boundary elements (continuous spaces): same load on the trace unknowns as through the adjacent element
static void trace(int k, const Mesh &mm, int order, int be)
{
   Mesh m(mm); const int d = m.Dimension(); H1_FECollection fec(order, d); FiniteElementSpace fes(&m, &fec, 1); Lin g("g", k == 1 ? d * d : d, d); Sca z("z", d, 0.5, 2); LinearFormIntegrator *L = mkL(k, g, k == 2 ? &z : nullptr);
   FaceElementTransformations *T = m.GetBdrFaceTransformations(be); const int en = T->Elem1No; const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), 2 * order + 2); L->SetIntRule(&ir);
   Vector a, b; L->AssembleRHSElementVect(*fes.GetFE(en), *T, a); L->AssembleRHSElementVect(*fes.GetBE(be), *fes.GetBdrElementTransformation(be), b);
   Array<int> de, db; fes.GetElementDofs(en, de); fes.GetBdrElementDofs(be, db); const int comps = k == 0 ? 1 : d, ne = de.Size(), nb = db.Size(); sx::check(a.Size() == comps * ne && b.Size() == comps * nb, "sizes");
   for (int c = 0; c < comps; c++) for (int i = 0; i < ne; i++) { int j = db.Find(de[i]); if (j >= 0) sx::eq(a[c * ne + i], b[c * nb + j], "boundary element load equals the face load" + I(c, i)); else sx::eq(a[c * ne + i], 0.0, "interior unknowns see no boundary load" + I(c, i)); }
}
SX_CASE(trace_normal) { trace(0, baseMesh(1, 1, 1), 1, sx::choose("face", 0, 3)); }
SX_CASE(trace_normal2) { trace(0, baseMesh(0, 1, 1), 2, sx::choose("face", 0, 3)); }
SX_CASE(trace_stress) { trace(1, baseMesh(1, 1, 1), 1, sx::choose("face", 0, 3)); }
SX_CASE(trace_temam) { trace(2, baseMesh(1, 1, 1), 1, sx::choose("face", 0, 3)); }
SX_CASE(trace_normal_tet) { trace(0, baseMesh(3, 1, 1, 1), 1, 3); }
// ---- mass flux through the boundary: matrix and load agree for data that is the trace of the velocity
SX_CASE(flux_boundary)
{
   int kind = sx::choose("kind", 0, 1); Bf b(baseMesh(kind, 1, 1), 1, sx::choose("face", 0, 3)); const int d = 2; L2_FECollection pf(1, 2, BasisType::GaussLobatto); FiniteElementSpace ps(&b.m, &pf, 1); const FiniteElement &q = *ps.GetFE(b.T->Elem1No);
   DGNormalFluxIntegrator F; DenseMatrix M; F.AssembleFaceMatrix(*b.el, *b.el, q, q, *b.T, M); Lin g("g", d, d); DGBoundaryNormalLFIntegrator L(g); Vector r; L.AssembleRHSElementVect(q, *b.T, r);
   sx::check(M.Height() == q.GetDof() && M.Width() == d * b.nd, "size");
   for (int i = 0; i < q.GetDof(); i++) { double s = 0; for (int j = 0; j < b.nd; j++) { double xd[3]; Vector p(xd, d); b.T->Elem1->Transform(b.el->GetNodes().IntPoint(j), p); for (int c = 0; c < d; c++) s += M(i, c * b.nd + j) * g.at(c, p); } sx::eq(s, r[i], "boundary flux of a velocity equals the load of its trace[" + I(i) + "]"); }
}
// ---- assembled mixed form: every interior face and every marked boundary face, every integrator, once
static void mixed(int kind, int ou, int op)
{
   Mesh m = baseMesh(kind, 2, 1); L2_FECollection uf(ou, 2, BasisType::GaussLobatto), pf(op, 2, BasisType::GaussLobatto); FiniteElementSpace us(&m, &uf, 2), ps(&m, &pf, 1);
   const int na = m.bdr_attributes.Max(); Array<int> mk1 = chooseArr(na, "m", 0, 1), mk2(na); mk2 = 0; mk2[1] = 1; mk2[3 % na] = 1; const int all = sx::choose("everywhere", 0, 1), two = sx::choose("two interior", 0, 1), dom = sx::choose("domain", 0, 1);
   MixedBilinearFormDGExtension B(&us, &ps); if (dom) B.AddDomainIntegrator(new VectorDivergenceIntegrator); B.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); if (two) B.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator);
   B.AddBdrFaceIntegrator(new DGNormalFluxIntegrator, mk1); B.AddBdrFaceIntegrator(new DGNormalFluxIntegrator, mk2); if (all) B.AddBdrFaceIntegrator(new DGNormalFluxIntegrator); B.Assemble(); B.Finalize(0);
   Vector x = vec(us.GetVSize(), "x"), y(ps.GetVSize()), z(ps.GetVSize()); y = 0.0; z = 0.0; const SparseMatrix &A = B.SpMat();
   for (int i = 0; i < A.Height(); i++) for (int q = A.GetI()[i]; q < A.GetI()[i + 1]; q++) y[i] += A.GetData()[q] * x[A.GetJ()[q]];
   auto add = [&](FaceElementTransformations &T, double s) { bool two2 = T.Elem2No >= 0; DGNormalFluxIntegrator F; DenseMatrix e; const FiniteElement &a = *us.GetFE(T.Elem1No), &b = *us.GetFE(two2 ? T.Elem2No : T.Elem1No), &p = *ps.GetFE(T.Elem1No), &q = *ps.GetFE(two2 ? T.Elem2No : T.Elem1No); F.AssembleFaceMatrix(a, b, p, q, T, e);
      Array<int> r, c, t; ps.GetElementVDofs(T.Elem1No, r); us.GetElementVDofs(T.Elem1No, c); if (two2) { ps.GetElementVDofs(T.Elem2No, t); r.Append(t); us.GetElementVDofs(T.Elem2No, t); c.Append(t); } for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) z[r[i]] += s * e(i, j) * x[c[j]]; };
   for (int f = 0; f < m.GetNumFaces(); f++) if (FaceElementTransformations *T = m.GetInteriorFaceTransformations(f)) add(*T, 1.0 + two);
   for (int i = 0; i < m.GetNBE(); i++) { int at = m.GetBdrAttribute(i); double s = mk1[at - 1] + mk2[at - 1] + all; if (s > 0) add(*m.GetBdrFaceTransformations(i), s); }
   if (dom) for (int e = 0; e < m.GetNE(); e++) { VectorDivergenceIntegrator V; DenseMatrix D; V.AssembleElementMatrix2(*us.GetFE(e), *ps.GetFE(e), *m.GetElementTransformation(e), D); Array<int> r, c; ps.GetElementVDofs(e, r); us.GetElementVDofs(e, c); for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) z[r[i]] += D(i, j) * x[c[j]]; }
   eqv(y, z, "mixed form is the sum of its parts");
}
SX_CASE(mixed_quad) { mixed(0, 1, 1); }
SX_CASE(mixed_tri) { mixed(1, 1, 0); }
// discrete divergence theorem: div + jumps - boundary flux vanishes against constant pressure
SX_CASE(divergence_theorem)
{
   Mesh m = baseMesh(1, 2, 1); L2_FECollection uf(1, 2, BasisType::GaussLobatto), pf(1, 2, BasisType::GaussLobatto); FiniteElementSpace us(&m, &uf, 2), ps(&m, &pf, 1); MixedBilinearFormDGExtension B(&us, &ps); B.AddDomainIntegrator(new VectorDivergenceIntegrator); B.Assemble(); B.Finalize(0);
   MixedBilinearFormDGExtension C(&us, &ps); C.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); C.AddBdrFaceIntegrator(new DGNormalFluxIntegrator); C.Assemble(); C.Finalize(0); Vector x = vec(us.GetVSize(), "x"); double s = 0;
   for (int t = 0; t < 2; t++) { const SparseMatrix &A = t ? C.SpMat() : B.SpMat(); for (int i = 0; i < A.Height(); i++) for (int q = A.GetI()[i]; q < A.GetI()[i + 1]; q++) s += (t ? -1.0 : 1.0) * A.GetData()[q] * x[A.GetJ()[q]]; } sx::eq(s, 0.0, "divergence equals jumps plus boundary flux for every velocity");
}
