// Integrators of MFEM 4.5.2 that the solvers of scaleupROM use with symbolic coefficients, penalties and
// boundary values, re-stated so that SxPass can instrument them (see mfem_models.cpp; linked where a check asks for it).
#include "mfem.hpp"
namespace mfem
{
static const IntegrationRule &faceRule(const IntegrationRule *r, const FiniteElement &a, const FiniteElement *b, FaceElementTransformations &T) { return r ? *r : IntRules.Get(T.GetGeometryType(), 2 * std::max(a.GetOrder(), b ? b->GetOrder() : 0)); }
static void normal(FaceElementTransformations &T, const IntegrationPoint &e, Vector &n) { if (n.Size() == 1) n(0) = 2 * e.x - 1.0; else CalcOrtho(T.Jacobian(), n); }
static void grads(const FiniteElement &el, const IntegrationPoint &e, ElementTransformation &T, DenseMatrix &g) { DenseMatrix d(el.GetDof(), el.GetDim()), a(el.GetDim()); g.SetSize(el.GetDof(), el.GetDim()); el.CalcDShape(e, d); CalcAdjugate(T.Jacobian(), a); Mult(d, a, g); }
// -------------------------------------------------------------- right-hand sides
void DomainLFIntegrator::AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &Tr, Vector &v)
{
   const int n = el.GetDof(); Vector s(n); v.SetSize(n); v = 0.0; const IntegrationRule &ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
   for (int q = 0; q < ir.GetNPoints(); q++) { const IntegrationPoint &ip = ir.IntPoint(q); Tr.SetIntPoint(&ip); const double w = ip.weight * Tr.Weight(), f = Q.Eval(Tr, ip); el.CalcShape(ip, s); for (int i = 0; i < n; i++) v(i) = v(i) + w * s(i) * f; }
}
void VectorDomainLFIntegrator::AssembleRHSElementVect(const FiniteElement &el, ElementTransformation &Tr, Vector &v)
{
   const int n = el.GetDof(), d = Q.GetVDim(); Vector s(n), f(d); v.SetSize(n * d); v = 0.0; const IntegrationRule &ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), 2 * el.GetOrder());
   for (int q = 0; q < ir.GetNPoints(); q++) { const IntegrationPoint &ip = ir.IntPoint(q); Tr.SetIntPoint(&ip); const double w = ip.weight * Tr.Weight(); el.CalcShape(ip, s); Q.Eval(f, Tr, ip); for (int k = 0; k < d; k++) for (int i = 0; i < n; i++) v(n * k + i) = v(n * k + i) + w * s(i) * f(k); }
}
void VectorBoundaryLFIntegrator::AssembleRHSElementVect(const FiniteElement &el, FaceElementTransformations &Tr, Vector &v)
{
   const int n = el.GetDof(), d = Q.GetVDim(); Vector s(n), f(d); v.SetSize(n * d); v = 0.0; const IntegrationRule &ir = faceRule(IntRule, el, nullptr, Tr);
   for (int q = 0; q < ir.GetNPoints(); q++) { const IntegrationPoint &ip = ir.IntPoint(q); Tr.SetAllIntPoints(&ip); const IntegrationPoint &e = Tr.GetElement1IntPoint(); const double w = ip.weight * Tr.Weight(); Q.Eval(f, Tr, ip); el.CalcShape(e, s); for (int k = 0; k < d; k++) for (int i = 0; i < n; i++) v(n * k + i) = v(n * k + i) + w * s(i) * f(k); }
}
void DGDirichletLFIntegrator::AssembleRHSElementVect(const FiniteElement &el, FaceElementTransformations &Tr, Vector &v)
{
   MFEM_VERIFY(!MQ, "not modelled"); const int n = el.GetDof(), d = el.GetDim(); Vector s(n), no(d); DenseMatrix g; v.SetSize(n); v = 0.0; const IntegrationRule &ir = faceRule(IntRule, el, nullptr, Tr);
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); Tr.SetAllIntPoints(&ip); const IntegrationPoint &e = Tr.GetElement1IntPoint(); normal(Tr, e, no); el.CalcShape(e, s); grads(el, e, *Tr.Elem1, g);
      double w = ip.weight / Tr.Elem1->Weight() * uD->Eval(Tr, ip); if (Q) w *= Q->Eval(*Tr.Elem1, e);
      double nn = 0; for (int k = 0; k < d; k++) nn += no(k) * no(k);
      for (int i = 0; i < n; i++) { double gn = 0; for (int k = 0; k < d; k++) gn += g(i, k) * no(k); v(i) = v(i) + sigma * (w * gn) + kappa * (w * (nn * s(i))); }
   }
}
void DGElasticityDirichletLFIntegrator::AssembleRHSElementVect(const FiniteElement &el, FaceElementTransformations &Tr, Vector &v)
{
   const int n = el.GetDof(), d = el.GetDim(); Vector s(n), no(d), u(d); DenseMatrix g; v.SetSize(n * d); v = 0.0; const IntegrationRule &ir = faceRule(IntRule, el, nullptr, Tr);
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); Tr.SetAllIntPoints(&ip); const IntegrationPoint &e = Tr.GetElement1IntPoint(); uD.Eval(u, Tr, ip); normal(Tr, e, no); el.CalcShape(e, s); grads(el, e, *Tr.Elem1, g);
      const double w = ip.weight / Tr.Elem1->Weight(), wL = w * lambda->Eval(*Tr.Elem1, e), wM = w * mu->Eval(*Tr.Elem1, e); double nn = 0, un = 0; for (int k = 0; k < d; k++) { nn += no(k) * no(k); un += u(k) * no(k); }
      const double j = kappa * (wL + 2.0 * wM) * nn;
      for (int k = 0; k < d; k++) for (int i = 0; i < n; i++) { double gn = 0, gu = 0; for (int l = 0; l < d; l++) { gn += g(i, l) * no(l); gu += g(i, l) * u(l); } v(n * k + i) = v(n * k + i) + alpha * (wL * un * g(i, k) + wM * (u(k) * gn + no(k) * gu)) + j * s(i) * u(k); }
   }
}
// -------------------------------------------------------------- operators
void ElasticityIntegrator::AssembleElementMatrix(const FiniteElement &el, ElementTransformation &T, DenseMatrix &m)
{
   const int n = el.GetDof(), d = el.GetDim(); DenseMatrix ds(n, d), g(n, d); m.SetSize(n * d); m = 0.0; const IntegrationRule &ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), 2 * T.OrderGrad(&el));
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); el.CalcDShape(ip, ds); T.SetIntPoint(&ip); const double w = ip.weight * T.Weight(); Mult(ds, T.InverseJacobian(), g);
      double M = mu->Eval(T, ip), L; if (lambda) L = lambda->Eval(T, ip); else { L = q_lambda * M; M = q_mu * M; }
      for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
      {
         double t = g(i, b) * g(j, a); if (a == b) for (int k = 0; k < d; k++) t += g(i, k) * g(j, k);
         m(n * a + i, n * b + j) = m(n * a + i, n * b + j) + L * (w * (g(i, a) * g(j, b))) + M * (w * t);
      }
   }
}
void VectorDiffusionIntegrator::AssembleElementMatrix(const FiniteElement &el, ElementTransformation &T, DenseMatrix &m)
{
   MFEM_VERIFY(!VQ && !MQ, "not modelled"); const int n = el.GetDof(), d = el.GetDim(); if (vdim == -1) vdim = T.GetSpaceDim(); DenseMatrix ds(n, d), g(n, d); m.SetSize(n * vdim); m = 0.0; const IntegrationRule &ir = IntRule ? *IntRule : DiffusionIntegrator::GetRule(el, el);
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); el.CalcDShape(ip, ds); T.SetIntPoint(&ip); const double w = ip.weight / T.Weight(), c = Q ? Q->Eval(T, ip) : 1.0; Mult(ds, T.AdjugateJacobian(), g);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = 0; for (int k = 0; k < d; k++) t += g(i, k) * g(j, k); for (int a = 0; a < vdim; a++) m(n * a + i, n * a + j) = m(n * a + i, n * a + j) + (w * t) * c; }
   }
}
void ConvectionIntegrator::AssembleElementMatrix(const FiniteElement &el, ElementTransformation &T, DenseMatrix &m)
{
   const int n = el.GetDof(), d = el.GetDim(); Vector s(n), f(d); DenseMatrix g; m.SetSize(n); m = 0.0; const IntegrationRule &ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), T.OrderGrad(&el) + T.Order() + el.GetOrder());
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); T.SetIntPoint(&ip); Q->Eval(f, T, ip); T.SetIntPoint(&ip); el.CalcShape(ip, s); grads(el, ip, T, g);
      for (int j = 0; j < n; j++) { double t = 0; for (int k = 0; k < d; k++) t += g(j, k) * f(k); t *= alpha; for (int i = 0; i < n; i++) m(i, j) = m(i, j) + (ip.weight * s(i)) * t; }
   }
}
struct FaceSide { int n = 0; Vector s; DenseMatrix g; double w = 0; };
static void side(const FiniteElement &el, const IntegrationPoint &e, ElementTransformation &T, double w, FaceSide &f) { f.n = el.GetDof(); f.s.SetSize(f.n); el.CalcShape(e, f.s); grads(el, e, T, f.g); f.w = w / T.Weight(); }
// elmat := -F + sigma F^t + J
static void finish(const DenseMatrix &F, const DenseMatrix &J, double sigma, DenseMatrix &m) { const int n = F.Height(); m.SetSize(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = J(i, j) + sigma * F(j, i) - F(i, j); }
void DGDiffusionIntegrator::AssembleFaceMatrix(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, DenseMatrix &m)
{
   MFEM_VERIFY(!MQ, "not modelled"); const bool two = T.Elem2No >= 0; const int d = a.GetDim(), n1 = a.GetDof(), N = n1 + (two ? b.GetDof() : 0); DenseMatrix F(N), J(N); F = 0.0; J = 0.0; Vector no(d); const IntegrationRule &ir = faceRule(IntRule, a, two ? &b : nullptr, T);
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); T.SetAllIntPoints(&ip); const IntegrationPoint &e1 = T.GetElement1IntPoint(); normal(T, e1, no); double nn = 0; for (int k = 0; k < d; k++) nn += no(k) * no(k);
      FaceSide S[2]; double c[2] = {1.0, 1.0}; side(a, e1, *T.Elem1, two ? ip.weight / 2 : ip.weight, S[0]); if (Q) c[0] = Q->Eval(*T.Elem1, e1); if (two) { const IntegrationPoint &e2 = T.GetElement2IntPoint(); side(b, e2, *T.Elem2, ip.weight / 2, S[1]); if (Q) c[1] = Q->Eval(*T.Elem2, e2); }
      const double pen = kappa * (c[0] * (S[0].w * nn) + (two ? c[1] * (S[1].w * nn) : 0.0));
      for (int r = 0; r <= (int)two; r++) for (int t = 0; t <= (int)two; t++) for (int j = 0; j < S[t].n; j++)
      {
         double gn = 0; for (int k = 0; k < d; k++) gn += S[t].g(j, k) * no(k); gn *= S[t].w; const double x = c[t] * gn, sr = r ? -1.0 : 1.0, st = t ? -1.0 : 1.0;
         for (int i = 0; i < S[r].n; i++) { const int I = (r ? n1 : 0) + i, K = (t ? n1 : 0) + j; F(I, K) = F(I, K) + x * (sr * S[r].s(i)); J(I, K) = J(I, K) + pen * (sr * st * S[r].s(i) * S[t].s(j)); }
      }
   }
   finish(F, J, sigma, m);
}
void DGElasticityIntegrator::AssembleFaceMatrix(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, DenseMatrix &m)
{
   const bool two = T.Elem2No >= 0; const int d = a.GetDim(), n1 = a.GetDof(), N = d * (n1 + (two ? b.GetDof() : 0)); DenseMatrix F(N), J(N); F = 0.0; J = 0.0; Vector no(d); const IntegrationRule &ir = faceRule(IntRule, a, two ? &b : nullptr, T);
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); T.SetAllIntPoints(&ip); const IntegrationPoint &e1 = T.GetElement1IntPoint(); normal(T, e1, no); double nn = 0; for (int k = 0; k < d; k++) nn += no(k) * no(k);
      FaceSide S[2]; double L[2], M[2]; side(a, e1, *T.Elem1, two ? ip.weight / 2 : ip.weight, S[0]); L[0] = lambda->Eval(*T.Elem1, e1); M[0] = mu->Eval(*T.Elem1, e1);
      if (two) { const IntegrationPoint &e2 = T.GetElement2IntPoint(); side(b, e2, *T.Elem2, ip.weight / 2, S[1]); L[1] = lambda->Eval(*T.Elem2, e2); M[1] = mu->Eval(*T.Elem2, e2); }
      double pen = (L[0] + 2.0 * M[0]) * (S[0].w * nn); if (two) pen += (L[1] + 2.0 * M[1]) * (S[1].w * nn); pen *= kappa;
      for (int r = 0; r <= (int)two; r++) for (int t = 0; t <= (int)two; t++)
      {
         const double sr = r ? -1.0 : 1.0, st = t ? -1.0 : 1.0; const int o = r ? d * n1 : 0, p = t ? d * n1 : 0;
         for (int jm = 0; jm < d; jm++) for (int j = 0; j < S[t].n; j++) for (int im = 0; im < d; im++)
         {
            double gn = 0; if (im == jm) for (int k = 0; k < d; k++) gn += S[t].g(j, k) * no(k); const double x = L[t] * (S[t].w * S[t].g(j, jm) * no(im)) + M[t] * (S[t].w * (S[t].g(j, im) * no(jm) + gn));
            for (int i = 0; i < S[r].n; i++) { const int I = o + im * S[r].n + i, K = p + jm * S[t].n + j; F(I, K) = F(I, K) + x * (sr * S[r].s(i)); if (im == jm) J(I, K) = J(I, K) + pen * (sr * st * S[r].s(i) * S[t].s(j)); }
         }
      }
   }
   finish(F, J, alpha, m);
}
} // namespace mfem
