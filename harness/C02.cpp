// Interface forms: the coupling residual and its Jacobian are the sum over all subdomain faces of every
// registered integrator, added to what was there, on the right unknowns of the right subdomains
#include "nl.hpp"
// a polynomial coupling that distinguishes sides, components and points (not one of the repository's)
struct Probe : public InterfaceNonlinearFormIntegrator
{
   double c; const IntegrationRule &ir;
   Probe(double cc, const IntegrationRule &r) : c(cc), ir(r) {}
   struct Pt { Vector s1, s2, u1, u2, n; double w; };
   void pt(Pt &q, const FiniteElement &a, const FiniteElement &b, const IntegrationPoint &e1, const IntegrationPoint &e2, const DenseMatrix &J, double w, const Vector &x1, const Vector &x2)
   {
      const int d = a.GetDim(); q.s1.SetSize(a.GetDof()); q.s2.SetSize(b.GetDof()); q.u1.SetSize(d); q.u2.SetSize(d); q.n.SetSize(d);
      a.CalcShape(e1, q.s1); b.CalcShape(e2, q.s2); CalcOrtho(J, q.n); q.w = w;
      for (int k = 0; k < d; k++) { q.u1[k] = at(q.s1, x1.GetData(), k); q.u2[k] = at(q.s2, x2.GetData(), k); }
   }
   // F1_k = c u1_k u2_k + n_k u1_0,  F2_k = u2_k^2 - 2 u1_k
   void res(Pt &q, Vector &y1, Vector &y2)
   {
      const int d = q.u1.Size();
      for (int k = 0; k < d; k++)
      {
         double f1 = q.w * (c * q.u1[k] * q.u2[k] + q.n[k] * q.u1[0]), f2 = q.w * (q.u2[k] * q.u2[k] - 2.0 * q.u1[k]);
         for (int i = 0; i < q.s1.Size(); i++) y1[k * q.s1.Size() + i] += f1 * q.s1[i];
         for (int i = 0; i < q.s2.Size(); i++) y2[k * q.s2.Size() + i] += f2 * q.s2[i];
      }
   }
   void AssembleInterfaceVector(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T1, FaceElementTransformations &T2, const Vector &x1, const Vector &x2, Vector &y1, Vector &y2) override
   {
      y1.SetSize(x1.Size()); y2.SetSize(x2.Size()); y1 = 0.0; y2 = 0.0; Pt q;
      for (int i = 0; i < ir.GetNPoints(); i++) { const IntegrationPoint &ip = ir.IntPoint(i); T1.SetAllIntPoints(&ip); T2.SetAllIntPoints(&ip); pt(q, a, b, T1.GetElement1IntPoint(), T2.GetElement1IntPoint(), T1.Jacobian(), ip.weight, x1, x2); res(q, y1, y2); }
   }
   void AssembleInterfaceGrad(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T1, FaceElementTransformations &T2, const Vector &x1, const Vector &x2, Array2D<DenseMatrix *> &M) override
   {
      const int n[2] = {x1.Size(), x2.Size()}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { M(i, j)->SetSize(n[i], n[j]); *M(i, j) = 0.0; } Pt q;
      for (int p = 0; p < ir.GetNPoints(); p++)
      {
         const IntegrationPoint &ip = ir.IntPoint(p); T1.SetAllIntPoints(&ip); T2.SetAllIntPoints(&ip); pt(q, a, b, T1.GetElement1IntPoint(), T2.GetElement1IntPoint(), T1.Jacobian(), ip.weight, x1, x2);
         const int d = q.u1.Size(), a1 = q.s1.Size(), a2 = q.s2.Size();
         for (int k = 0; k < d; k++)
         {
            for (int i = 0; i < a1; i++) { for (int j = 0; j < a1; j++) { (*M(0, 0))(k * a1 + i, k * a1 + j) += q.w * c * q.u2[k] * q.s1[i] * q.s1[j]; (*M(0, 0))(k * a1 + i, j) += q.w * q.n[k] * q.s1[i] * q.s1[j]; } for (int j = 0; j < a2; j++) (*M(0, 1))(k * a1 + i, k * a2 + j) += q.w * c * q.u1[k] * q.s1[i] * q.s2[j]; }
            for (int i = 0; i < a2; i++) { for (int j = 0; j < a1; j++) (*M(1, 0))(k * a2 + i, k * a1 + j) -= 2.0 * q.w * q.s2[i] * q.s1[j]; for (int j = 0; j < a2; j++) (*M(1, 1))(k * a2 + i, k * a2 + j) += 2.0 * q.w * q.u2[k] * q.s2[i] * q.s2[j]; }
         }
      }
   }
};
static FaceElementTransformations *side(DD &d, FaceElementTransformations &T, bool &swap) { swap = d.pm.GetAttribute(T.Elem1No) > d.pm.GetAttribute(T.Elem2No); return &T; }
// the same sum written on the undecomposed mesh: side 1 is the subdomain of lower index
static Vector probeRef(DD &d, Spaces &s, double c, const IntegrationRule &ir, const Vector &x)
{
   Vector y(x.Size()); y = 0.0; Probe P(c, ir);
   addFaces(d, [&](FaceElementTransformations &T) {
      bool sw; side(d, T, sw); Array<int> v1, v2; s.pf->GetElementVDofs(sw ? T.Elem2No : T.Elem1No, v1); s.pf->GetElementVDofs(sw ? T.Elem1No : T.Elem2No, v2);
      Vector x1(v1.Size()), x2(v2.Size()), y1(v1.Size()), y2(v2.Size()); for (int i = 0; i < v1.Size(); i++) x1[i] = x[v1[i]]; for (int i = 0; i < v2.Size(); i++) x2[i] = x[v2[i]]; y1 = 0.0; y2 = 0.0;
      const FiniteElement &a = *s.pf->GetFE(sw ? T.Elem2No : T.Elem1No), &b = *s.pf->GetFE(sw ? T.Elem1No : T.Elem2No);
      for (int i = 0; i < ir.GetNPoints(); i++)
      {
         const IntegrationPoint &ip = ir.IntPoint(i); T.SetAllIntPoints(&ip); DenseMatrix J(T.Jacobian()); const bool flip = sw && d.pm.Dimension() == 2;
         if (flip) J.Neg(); Probe::Pt q; P.pt(q, a, b, sw ? T.GetElement2IntPoint() : T.GetElement1IntPoint(), sw ? T.GetElement1IntPoint() : T.GetElement2IntPoint(), J, ip.weight, x1, x2);
         if (sw && !flip) q.n.Neg(); P.res(q, y1, y2);
      }
      for (int i = 0; i < v1.Size(); i++) y[v1[i]] += y1[i]; for (int i = 0; i < v2.Size(); i++) y[v2[i]] += y2[i]; }, true, false);
   return y;
}
static void probe(const Mesh &m, const std::vector<int> &part, int order, bool byv)
{
   DD d(m, part); const int dim = d.pm.Dimension(); Spaces s(d, order, dim, byv);
   const IntegrationRule &ir = IntRules.Get(dim == 2 ? Geometry::SEGMENT : m.GetFaceBaseGeometry(0), 2); double c = sx::real("c", -1, 1), e = sx::real("e", -1, 1);
   InterfaceForm f(d.meshes, s.fes, d.th); f.AddInterfaceIntegrator(new Probe(c, ir)); f.AddInterfaceIntegrator(new Probe(e, ir));
   Vector xp = vec(s.pf->GetVSize(), "x"), yp = vec(s.pf->GetVSize(), "y"), x = s.toBlocks(xp), y = s.toBlocks(yp), x0(x);
   sx::check(f.GetBlockOffsets().Size() == d.n() + 1, "one block per subdomain"); for (int k = 0; k <= d.n(); k++) sx::check(f.GetBlockOffsets()[k] == s.off[k], "block offsets");
   f.InterfaceAddMult(x, y);
   Vector r = probeRef(d, s, c, ir, xp), r2 = probeRef(d, s, e, ir, xp); for (int i = 0; i < r.Size(); i++) r[i] += yp[i] + r2[i];
   eqv(s.toParent(y), r, "coupling residual: sum over faces and integrators, added to the given vector"); eqv(x, x0, "state unchanged");
   auto B = blocks(s, s); f.InterfaceGetGradient(x, B); DenseMatrix G = toParent(s, s, B);
   sx::jacobian("coupling Jacobian", sv(xp), [&](std::vector<double> &z) { Vector a(z.data(), z.size()), o; a.MakeDataOwner(); Vector b = s.toBlocks(a), w(b.Size()); a.StealData(); w = 0.0; f.InterfaceAddMult(b, w); return sv(s.toParent(w)); }, [&](int i, int j) { return G(i, j); });
   // a second evaluation accumulates on top of the first
   f.InterfaceGetGradient(x, B);
   DenseMatrix G2(G.Height(), G.Width()); G2 = 0.0; for (int i = 0; i < d.n(); i++) for (int j = 0; j < d.n(); j++) { if (!B(i, j)->Finalized()) B(i, j)->Finalize(0); }
   G2 = toParent(s, s, B); for (int i = 0; i < G.Height(); i++) for (int j = 0; j < G.Width(); j++) G(i, j) *= 2.0; eqm(G2, G, "gradient accumulates");
}
SX_CASE(form_quad_parts) { auto p = choosePart(4, 2); probe(baseMesh(0, 2, 2), p, 1, false); }
SX_CASE(form_tri_parts) { auto p = choosePart(4, 2); probe(baseMesh(1, 2, 1), p, 1, true); }
SX_CASE(form_quad_4) { probe(baseMesh(0, 2, 2), {3, 1, 4, 2}, 1, false); }
SX_CASE(form_tri_order2) { probe(baseMesh(1, 1, 1), {2, 1}, 2, false); }
SX_CASE(form_hex) { probe(baseMesh(2, 1, 2, 1), {2, 1}, 1, false); }
SX_CASE(form_tet) { probe(baseMesh(3, 1, 1, 1), {1, 2, 2, 3, 1, 3}, 1, false); }
SX_CASE_THOROUGH(form_tet_parts) { auto p = choosePart(6, 2); probe(baseMesh(3, 1, 1, 1), p, 1, false); }
SX_CASE_THOROUGH(form_quad_3parts) { auto p = choosePart(4, 3); probe(baseMesh(0, 2, 2), p, 1, false); }
// the repository's nonlinear couplings: value against the undecomposed form, Jacobian against the value
static double nrm(const Vector &v) { double s = 0; for (int i = 0; i < v.Size(); i++) s += v[i] * v[i]; return std::sqrt(s); }
static void flux(const Mesh &m, const std::vector<int> &part, bool lf, int order, int iro)
{
   sx_nonzero_denominators(true);
   DD d(m, part); const int dim = d.pm.Dimension(); Spaces s(d, order, dim); AttrCoef q = symCoef("Q", 1, dim, !lf);
   const IntegrationRule &ir = IntRules.Get(dim == 2 ? Geometry::SEGMENT : m.GetFaceBaseGeometry(0), iro);
   InterfaceForm f(d.meshes, s.fes, d.th); InterfaceNonlinearFormIntegrator *I1;
   if (lf) I1 = new DGLaxFriedrichsFluxIntegrator(q, nullptr, &ir); else { InterfaceDGTemamFluxIntegrator *t = new InterfaceDGTemamFluxIntegrator(q); t->SetIntRule(&ir); I1 = t; } f.AddInterfaceIntegrator(I1);
   Vector xp(s.pf->GetVSize()); for (int i = 0; i < xp.Size(); i++) xp[i] = lf ? sx::real("x" + I(i), 0.5, 1) : sx::real("x" + I(i), -1, 1);
   Vector x = s.toBlocks(xp), y(x.Size()), r(xp.Size()); y = 0.0; r = 0.0; f.InterfaceAddMult(x, y);
   addFaces(d, [&](FaceElementTransformations &T) {
      bool sw; side(d, T, sw); const int E1 = sw ? T.Elem2No : T.Elem1No, E2 = sw ? T.Elem1No : T.Elem2No; Array<int> v1, v2; s.pf->GetElementVDofs(E1, v1); s.pf->GetElementVDofs(E2, v2); const FiniteElement &a = *s.pf->GetFE(E1), &b = *s.pf->GetFE(E2);
      for (int p = 0; p < ir.GetNPoints(); p++)
      {
         const IntegrationPoint &ip = ir.IntPoint(p); T.SetAllIntPoints(&ip); Vector n(dim), s1(a.GetDof()), s2(b.GetDof()), u1(dim), u2(dim), F1(dim), F2(dim); CalcOrtho(T.Jacobian(), n); if (sw) n.Neg();
         a.CalcShape(sw ? T.GetElement2IntPoint() : T.GetElement1IntPoint(), s1); b.CalcShape(sw ? T.GetElement1IntPoint() : T.GetElement2IntPoint(), s2); u1 = 0.0; u2 = 0.0;
         for (int c = 0; c < dim; c++) { for (int i = 0; i < s1.Size(); i++) u1[c] += s1[i] * xp[v1[c * s1.Size() + i]]; for (int i = 0; i < s2.Size(); i++) u2[c] += s2[i] * xp[v2[c * s2.Size() + i]]; }
         double w = ip.weight * q.Eval(*T.Elem1, T.GetElement1IntPoint()), un1 = 0, un2 = 0; for (int c = 0; c < dim; c++) { un1 += n[c] * u1[c]; un2 += n[c] * u2[c]; }
         if (lf) { double m1 = nrm(u1), m2 = nrm(u2), mx = m1 < m2 ? m2 : m1; for (int c = 0; c < dim; c++) { F1[c] = -(0.5 * (un1 * u1[c] + un2 * u2[c]) + mx * nrm(n) * (u1[c] - u2[c])); F2[c] = -F1[c]; } }
         else for (int c = 0; c < dim; c++) { F1[c] = -0.5 * un1 * u2[c]; F2[c] = 0.5 * un1 * u1[c]; }
         for (int c = 0; c < dim; c++) { for (int i = 0; i < s1.Size(); i++) r[v1[c * s1.Size() + i]] += w * F1[c] * s1[i]; for (int i = 0; i < s2.Size(); i++) r[v2[c * s2.Size() + i]] += w * F2[c] * s2[i]; }
      } }, true, false);
   eqv(s.toParent(y), r, lf ? "Lax-Friedrichs coupling value" : "Temam coupling value");
   auto B = blocks(s, s); f.InterfaceGetGradient(x, B); DenseMatrix G = toParent(s, s, B);
   sx::jacobian(lf ? "Lax-Friedrichs coupling Jacobian" : "Temam coupling Jacobian", sv(xp), [&](std::vector<double> &z) { Vector a(z.size()); for (size_t i = 0; i < z.size(); i++) a[i] = z[i]; Vector b = s.toBlocks(a), w(b.Size()); w = 0.0; f.InterfaceAddMult(b, w); return sv(s.toParent(w)); }, [&](int i, int j) { return G(i, j); });
   // default integration rule: same derivative relation
   if (!lf) { InterfaceForm g(d.meshes, s.fes, d.th); g.AddInterfaceIntegrator(new InterfaceDGTemamFluxIntegrator(q)); auto C = blocks(s, s); g.InterfaceGetGradient(x, C); DenseMatrix H = toParent(s, s, C);
      sx::jacobian("Temam coupling Jacobian, default rule", sv(xp), [&](std::vector<double> &z) { Vector a(z.size()); for (size_t i = 0; i < z.size(); i++) a[i] = z[i]; Vector b = s.toBlocks(a), w(b.Size()); w = 0.0; g.InterfaceAddMult(b, w); return sv(s.toParent(w)); }, [&](int i, int j) { return H(i, j); }); }
}
// one interface, different orders on its two sides
static void mixedFlux(bool lf, int o1, int o2)
{
   sx_nonzero_denominators(true); Itf f(baseMesh(1, 1, 1), {1, 2}, o2, o1); const int dim = 2, n1 = f.e1->GetDof(), n2 = f.e2->GetDof(); ConstantCoefficient q(sx::real("q", 0.5, 2)); const IntegrationRule &ir = IntRules.Get(f.t1->GetGeometryType(), 3);
   InterfaceNonlinearFormIntegrator *I1; if (lf) I1 = new DGLaxFriedrichsFluxIntegrator(q, nullptr, &ir); else { InterfaceDGTemamFluxIntegrator *t = new InterfaceDGTemamFluxIntegrator(q); t->SetIntRule(&ir); I1 = t; }
   Vector X(dim * (n1 + n2)); for (int i = 0; i < X.Size(); i++) X[i] = lf ? sx::real("x" + I(i), 0.5, 1) : sx::real("x" + I(i), -1, 1); const int k = dim * n1;
   auto value = [&](const Vector &x) { Vector a(k), b(dim * n2), y1, y2, y(x.Size()); for (int i = 0; i < x.Size(); i++) (i < k ? a[i] : b[i - k]) = x[i]; awayFace(*f.t1); awayFace(*f.t2); I1->AssembleInterfaceVector(*f.e1, *f.e2, *f.t1, *f.t2, a, b, y1, y2); if (y1.Size() != k || y2.Size() != dim * n2) abort(); for (int i = 0; i < y.Size(); i++) y[i] = i < k ? y1[i] : y2[i - k]; return y; };
   Vector r(X.Size()); r = 0.0;
   for (int p = 0; p < ir.GetNPoints(); p++)
   {
      const IntegrationPoint &ip = ir.IntPoint(p); f.t1->SetAllIntPoints(&ip); f.t2->SetAllIntPoints(&ip); Vector n(dim), s1(n1), s2(n2), u1(dim), u2(dim); CalcOrtho(f.t1->Jacobian(), n); f.e1->CalcShape(f.t1->GetElement1IntPoint(), s1); f.e2->CalcShape(f.t2->GetElement1IntPoint(), s2); u1 = 0.0; u2 = 0.0;
      for (int c = 0; c < dim; c++) { for (int i = 0; i < n1; i++) u1[c] += s1[i] * X[c * n1 + i]; for (int i = 0; i < n2; i++) u2[c] += s2[i] * X[k + c * n2 + i]; } double un1 = 0, un2 = 0, w = ip.weight * q.constant; for (int c = 0; c < dim; c++) { un1 += n[c] * u1[c]; un2 += n[c] * u2[c]; } const double m1 = nrm(u1), m2 = nrm(u2), mx = lf ? m1 < m2 ? m2 : m1 : 0.0;
      for (int c = 0; c < dim; c++) { double F1 = lf ? -(0.5 * (un1 * u1[c] + un2 * u2[c]) + mx * nrm(n) * (u1[c] - u2[c])) : -0.5 * un1 * u2[c], F2 = lf ? -F1 : 0.5 * un1 * u1[c]; for (int i = 0; i < n1; i++) r[c * n1 + i] += w * F1 * s1[i]; for (int i = 0; i < n2; i++) r[k + c * n2 + i] += w * F2 * s2[i]; }
   }
   eqv(value(X), r, "coupling of different orders, value"); Array2D<DenseMatrix *> M(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) M(i, j) = new DenseMatrix; Vector a(k), b(dim * n2); for (int i = 0; i < X.Size(); i++) (i < k ? a[i] : b[i - k]) = X[i]; awayFace(*f.t1); awayFace(*f.t2); I1->AssembleInterfaceGrad(*f.e1, *f.e2, *f.t1, *f.t2, a, b, M);
   sx::jacobian("coupling of different orders, Jacobian", sv(X), [&](std::vector<double> &z) { Vector v(z.size()); for (size_t i = 0; i < z.size(); i++) v[i] = z[i]; return sv(value(v)); }, [&](int i, int j) { return (*M(i >= k, j >= k))(i >= k ? i - k : i, j >= k ? j - k : j); });
}
SX_CASE(temam_mixed) { mixedFlux(false, 1, 2); mixedFlux(false, 2, 1); }
SX_CASE(lf_mixed) { mixedFlux(true, 1, 2); }
SX_CASE(temam_quad) { auto p = choosePart(2, 2); flux(baseMesh(0, 2, 1), p, false, 1, 3); }
SX_CASE(temam_tri_parts) { auto p = choosePart(4, 2); flux(baseMesh(1, 2, 1), p, false, 1, 3); }
SX_CASE(temam_3) { flux(baseMesh(0, 3, 1), {2, 3, 1}, false, 1, 2); }
SX_CASE(temam_tet) { flux(baseMesh(3, 1, 1, 1), {1, 2, 2, 3, 1, 3}, false, 1, 2); }
SX_CASE(lf_quad) { auto p = choosePart(2, 2); flux(baseMesh(0, 2, 1), p, true, 1, 1); }
SX_CASE(lf_tri_rev) { flux(baseMesh(1, 1, 1), {2, 1}, true, 1, 2); }
SX_CASE(lf_tri_3) { flux(baseMesh(1, 2, 1), {1, 2, 3, 1}, true, 1, 1); }
SX_CASE_THOROUGH(lf_hex) { flux(baseMesh(2, 2, 1, 1), {2, 1}, true, 1, 1); }
// several bilinear integrators: matrices are summed and added to what is there
SX_CASE(matrices_sum)
{
   DD d(baseMesh(0, 2, 2), {1, 2, 2, 3}); Spaces s(d, 1, 1); double sg = sx::real("sigma", -1, 1), ka = sx::real("kappa", 1, 20), s2 = sx::real("sigma2", -1, 1), k2 = sx::real("kappa2", 1, 20);
   auto one = [&](double a, double b) { InterfaceForm f(d.meshes, s.fes, d.th); f.AddInterfaceIntegrator(new InterfaceDGDiffusionIntegrator(a, b)); auto B = blocks(s, s); f.AssembleInterfaceMatrices(B); return toParent(s, s, B); };
   DenseMatrix A = one(sg, ka), C = one(s2, k2); InterfaceForm f(d.meshes, s.fes, d.th); f.AddInterfaceIntegrator(new InterfaceDGDiffusionIntegrator(sg, ka)); f.AddInterfaceIntegrator(new InterfaceDGDiffusionIntegrator(s2, k2));
   auto B = blocks(s, s); double z = sx::real("z", -1, 1); B(0, 1)->Add(1, 2, z); B(2, 2)->Add(0, 0, z); f.AssembleInterfaceMatrices(B); DenseMatrix G = toParent(s, s, B);
   for (int i = 0; i < A.Height(); i++) for (int j = 0; j < A.Width(); j++) A(i, j) += C(i, j); A(s.map[0][1], s.map[1][2]) += z; A(s.map[2][0], s.map[2][0]) += z; eqm(G, A, "sum of integrators, added to the given matrices");
}
