// Nonlinear flow integrators: value of the residual and Jacobian == derivative of the residual
#include "nl.hpp"
enum { CONV, FLUX, TEMAM };
struct PosCoef : public Coefficient { double a, b; PosCoef() : a(sx::real("Qa", 0.5, 2)), b(sx::real("Qb", -0.1, 0.1)) {} double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { double xd[3]; Vector x(xd, 3); T.Transform(ip, x); return a + b * xd[0]; } };
static NonlinearFormIntegrator *mk(int k, Coefficient &q, VectorCoefficient *v = nullptr)
{ if (k == CONV) return new VectorConvectionTrilinearFormIntegrator(q, v); if (k == FLUX) return new IncompressibleInviscidFluxNLFIntegrator(q); return new TemamTrilinearFormIntegrator(q); }
static Vector refElem(int k, ElemFix &e, Coefficient &Q, const Vector &x, const IntegrationRule &ir, VectorCoefficient *vq = nullptr)
{
   const int nd = e.nd(), d = e.dim(); Vector r(nd * d); r = 0.0; Vector sh(nd); DenseMatrix ds(nd, d);
   for (int p = 0; p < ir.GetNPoints(); p++)
   {
      const IntegrationPoint &ip = ir.IntPoint(p); e.T->SetIntPoint(&ip); e.fe->CalcPhysShape(*e.T, sh); e.fe->CalcPhysDShape(*e.T, ds);
      double w = ip.weight * e.T->Weight() * Q.Eval(*e.T, ip); Vector a(d); if (vq) vq->Eval(a, *e.T, ip); else for (int c = 0; c < d; c++) a[c] = at(sh, x.GetData(), c);
      for (int c = 0; c < d; c++)
      {
         double u = at(sh, x.GetData(), c), adu = 0; for (int l = 0; l < d; l++) adu += a[l] * dat(ds, x.GetData(), c, l);
         for (int i = 0; i < nd; i++)
         {
            double adv = 0; for (int l = 0; l < d; l++) adv += a[l] * ds(i, l);
            r[c * nd + i] += k == CONV ? w * adu * sh[i] : k == FLUX ? w * u * adv : 0.5 * w * (adu * sh[i] - adv * u);
         }
      }
   }
   return r;
}
static void elem(int k, const Mesh &m, int order, bool vq = false, int e = 0)
{
   ElemFix f(m, order, e); PosCoef q; LinVec v("v", f.dim()); VectorCoefficient *vp = vq ? &v : nullptr;
   Vector x = vec(f.nv(), "u"), r, x0(x); NonlinearFormIntegrator *I1 = mk(k, q, vp);
   // values: with a given rule the residual is exactly the quadrature of the weak form
   const IntegrationRule &ir = IntRules.Get(f.fe->GetGeomType(), 2 * order + 1);
   usedBefore(I1, baseMesh(f.m.Dimension() == 3 ? 2 : 0, 1, 1), order == 1 ? 2 : 1); away(*f.T);
   I1->SetIntRule(&ir); I1->AssembleElementVector(*f.fe, *f.T, x, r);
   eqv(r, refElem(k, f, q, x, ir, vp), "residual is the quadrature of the weak form");
   DenseMatrix J; away(*f.T); I1->AssembleElementGrad(*f.fe, *f.T, x, J); away(*f.T);
   sx::check(J.Height() == f.nv() && J.Width() == f.nv(), "Jacobian size");
   sx::jacobian("Jacobian", sv(x), [&](std::vector<double> &z) { Vector a(z.data(), z.size()), y; I1->AssembleElementVector(*f.fe, *f.T, a, y); return sv(y); }, [&](int i, int j) { return J(i, j); });
   // the default rule: same derivative relation
   NonlinearFormIntegrator *I2 = mk(k, q, vp); DenseMatrix J2; usedBefore(I2, baseMesh(f.m.Dimension() == 3 ? 2 : 0, 1, 1), order == 1 ? 2 : 1); away(*f.T); I2->AssembleElementGrad(*f.fe, *f.T, x, J2);
   sx::jacobian("Jacobian, default rule", sv(x), [&](std::vector<double> &z) { Vector a(z.data(), z.size()), y; I2->AssembleElementVector(*f.fe, *f.T, a, y); return sv(y); }, [&](int i, int j) { return J2(i, j); });
   eqv(x, x0, "state unchanged");
}
SX_CASE(conv_tri) { elem(CONV, baseMesh(1, 1, 1), 1); }
SX_CASE(conv_quad) { elem(CONV, baseMesh(0, 1, 1), 1); }
SX_CASE(conv_tri_given_velocity) { elem(CONV, baseMesh(1, 1, 1), 1, true, 1); }
SX_CASE(flux_tri) { elem(FLUX, baseMesh(1, 1, 1), 1, false, 1); }
SX_CASE(flux_quad) { elem(FLUX, baseMesh(0, 1, 1), 1); }
SX_CASE(temam_tri) { elem(TEMAM, baseMesh(1, 1, 1), 1); }
SX_CASE(temam_quad) { elem(TEMAM, baseMesh(0, 1, 1), 1); }
SX_CASE(conv_tri2) { elem(CONV, baseMesh(1, 1, 1), 2); }
SX_CASE(temam_tri2) { elem(TEMAM, baseMesh(1, 1, 1), 2); }
SX_CASE(flux_tri2) { elem(FLUX, baseMesh(1, 1, 1), 2); }
SX_CASE_THOROUGH(conv_tet) { elem(CONV, baseMesh(3, 1, 1, 1), 1); }
SX_CASE_THOROUGH(flux_tet) { elem(FLUX, baseMesh(3, 1, 1, 1), 1); }
SX_CASE_THOROUGH(temam_tet) { elem(TEMAM, baseMesh(3, 1, 1, 1), 1); }
// on affine elements the default rule integrates the weak form exactly
static void exact(int k, int order) { ElemFix f(baseMesh(1, 1, 1), order); ConstantCoefficient q(1.5); Vector x = vec(f.nv(), "u"), r; NonlinearFormIntegrator *I1 = mk(k, q); I1->AssembleElementVector(*f.fe, *f.T, x, r); eqv(r, refElem(k, f, q, x, IntRules.Get(f.fe->GetGeomType(), 3 * order + 4)), "default rule is exact on affine elements"); }
SX_CASE(conv_exact1) { exact(CONV, 1); }
SX_CASE(flux_exact1) { exact(FLUX, 1); }
SX_CASE(temam_exact1) { exact(TEMAM, 1); }
SX_CASE(conv_exact2) { exact(CONV, 2); }
// Temam's form is skew: the energy production over the element is zero
SX_CASE(temam_energy)
{
   ElemFix f(baseMesh(1, 1, 1), 1); ConstantCoefficient q(sx::real("q", 0.5, 2)); Vector x = vec(f.nv(), "u"), r; TemamTrilinearFormIntegrator t(q); t.AssembleElementVector(*f.fe, *f.T, x, r);
   double s = 0; for (int i = 0; i < r.Size(); i++) s += r[i] * x[i]; sx::eq(s, 0.0, "energy of the skew-symmetrised convection");
}
// ---- faces: Temam flux
static void temamFace(const Mesh &m, bool bdr, int order = 1, int idx = 0, int order2 = 0)
{
   FaceFix f(m, order, bdr, idx, order2); PosCoef q; Vector x = vec(f.nv(), "u"), r; DGTemamFluxIntegrator I1(q);
   const IntegrationRule &ir = IntRules.Get(f.T->GetGeometryType(), 3 * order); I1.SetIntRule(&ir); usedBeforeFace(&I1, baseMesh(0, 2, 1), 2, !bdr); awayFace(*f.T);
   I1.AssembleFaceVector(*f.f1, *f.f2, *f.T, x, r);
   const int d = f.d; Vector z(f.nv()); z = 0.0; const double *x1 = x.GetData(), *x2 = x1 + d * f.n1;
   for (int p = 0; p < ir.GetNPoints(); p++)
   {
      const IntegrationPoint &ip = ir.IntPoint(p); f.T->SetAllIntPoints(&ip); Vector s1(f.n1), s2(f.n2), n(d); CalcOrtho(f.T->Jacobian(), n); f.f1->CalcShape(f.T->GetElement1IntPoint(), s1); if (!bdr) f.f2->CalcShape(f.T->GetElement2IntPoint(), s2);
      double un = 0, w = 0.5 * ip.weight * q.Eval(*f.T, ip); for (int c = 0; c < d; c++) un += n[c] * at(s1, x1, c);
      for (int c = 0; c < d; c++)
      {
         double u1 = at(s1, x1, c);
         if (bdr) for (int i = 0; i < f.n1; i++) z[c * f.n1 + i] += w * un * u1 * s1[i];
         else { double u2 = at(s2, x2, c); for (int i = 0; i < f.n1; i++) z[c * f.n1 + i] -= w * un * u2 * s1[i]; for (int i = 0; i < f.n2; i++) z[d * f.n1 + c * f.n2 + i] += w * un * u1 * s2[i]; }
      }
   }
   eqv(r, z, "Temam face flux value");
   for (int rep = 0; rep < 2; rep++)
   {
      DGTemamFluxIntegrator I2(q); NonlinearFormIntegrator &I3 = rep ? I2 : I1; DenseMatrix J; awayFace(*f.T); I3.AssembleFaceGrad(*f.f1, *f.f2, *f.T, x, J);
      sx::jacobian(rep ? "Temam face Jacobian, default rule" : "Temam face Jacobian", sv(x), [&](std::vector<double> &y) { Vector a(y.data(), y.size()), o; I3.AssembleFaceVector(*f.f1, *f.f2, *f.T, a, o); return sv(o); }, [&](int i, int j) { return J(i, j); });
   }
}
SX_CASE(temamflux_tri) { temamFace(baseMesh(1, 1, 1), false); }
SX_CASE(temamflux_quad) { temamFace(baseMesh(0, 2, 1), false); }
SX_CASE(temamflux_bdr) { temamFace(baseMesh(1, 1, 1), true); temamFace(baseMesh(0, 1, 1), true, 1, 2); }
SX_CASE(temamflux_mixed) { temamFace(baseMesh(1, 1, 1), false, 1, 0, 2); temamFace(baseMesh(1, 1, 1), false, 2, 0, 1); }
SX_CASE_THOROUGH(temamflux_tet) { temamFace(baseMesh(3, 1, 1, 1), false); }
// ---- faces: Lax-Friedrichs flux
static double nrm(const Vector &v) { double s = 0; for (int i = 0; i < v.Size(); i++) s += v[i] * v[i]; return std::sqrt(s); }
// residual: -w (v1 - v2) . F,  F = {u u.n} + max(|u1|,|u2|) |n| (u1 - u2); outside states from the boundary data if any
static Vector lfRef(FaceFix &f, Coefficient &q, VectorCoefficient *ud, const Vector &x, const IntegrationRule &ir)
{
   const int d = f.d; Vector z(x.Size()); z = 0.0; const double *x1 = x.GetData(), *x2 = x1 + d * f.n1;
   for (int p = 0; p < ir.GetNPoints(); p++)
   {
      const IntegrationPoint &ip = ir.IntPoint(p); f.T->SetAllIntPoints(&ip); Vector s1(f.n1), s2(f.n2), n(d), u1(d), u2(d), F(d); CalcOrtho(f.T->Jacobian(), n);
      f.f1->CalcShape(f.T->GetElement1IntPoint(), s1); if (f.n2) f.f2->CalcShape(f.T->GetElement2IntPoint(), s2);
      double w = ip.weight * q.Eval(*f.T, ip); for (int c = 0; c < d; c++) { u1[c] = at(s1, x1, c); if (f.n2) u2[c] = at(s2, x2, c); }
      if (!f.n2 && ud) ud->Eval(u2, *f.T->Elem1, f.T->GetElement1IntPoint());
      double a = 0, b = 0; for (int c = 0; c < d; c++) { a += n[c] * u1[c]; if (f.n2 || ud) b += n[c] * u2[c]; }
      if (f.n2 || ud) { double m1 = nrm(u1), m2 = nrm(u2), mx = m1 < m2 ? m2 : m1; for (int c = 0; c < d; c++) F[c] = 0.5 * (a * u1[c] + b * u2[c]) + mx * nrm(n) * (u1[c] - u2[c]); }
      else for (int c = 0; c < d; c++) F[c] = a * u1[c];
      for (int c = 0; c < d; c++) { for (int i = 0; i < f.n1; i++) z[c * f.n1 + i] -= w * F[c] * s1[i]; for (int i = 0; i < f.n2; i++) z[d * f.n1 + c * f.n2 + i] += w * F[c] * s2[i]; }
   }
   return z;
}
// every velocity component keeps one sign per element (all sign patterns are explored) and stays away from
// zero; which side is faster is left open
static Vector signedState(FaceFix &f)
{
   Vector x(f.nv());
   for (int e = 0; e < (f.n2 ? 2 : 1); e++) for (int c = 0; c < f.d; c++)
   {
      bool neg = sx::choose("neg" + I(e, c), 0, 1); int n = e ? f.n2 : f.n1;
      for (int i = 0; i < n; i++) { int k = (e ? f.d * f.n1 : 0) + c * n + i; x[k] = neg ? sx::real("u" + I(k), -1, -0.5) : sx::real("u" + I(k), 0.5, 1); }
   }
   return x;
}
static void lfFace(const Mesh &m, int mode, int order = 1, int idx = 0, int irorder = 2, int order2 = 0)   // 0 interior 1 outflow 2 boundary data
{
   sx_nonzero_denominators(true);
   FaceFix f(m, order, mode != 0, idx, order2); ConstantCoefficient q(sx::real("q", 0.5, 2)); LinVec ud("ud", f.d, 0.5, 1); VectorCoefficient *up = mode == 2 ? &ud : nullptr;
   Vector x = signedState(f), r; const IntegrationRule &ir = IntRules.Get(f.T->GetGeometryType(), irorder);
   DGLaxFriedrichsFluxIntegrator I1(q, up, &ir); usedBeforeFace(&I1, baseMesh(f.d == 3 ? 2 : 0, 2, 1), 2, mode == 0); awayFace(*f.T); I1.AssembleFaceVector(*f.f1, *f.f2, *f.T, x, r);
   eqv(r, lfRef(f, q, up, x, ir), "Lax-Friedrichs face flux value");
   DenseMatrix J; awayFace(*f.T); I1.AssembleFaceGrad(*f.f1, *f.f2, *f.T, x, J); awayFace(*f.T);
   sx::jacobian("Lax-Friedrichs face Jacobian", sv(x), [&](std::vector<double> &y) { Vector a(y.data(), y.size()), o; I1.AssembleFaceVector(*f.f1, *f.f2, *f.T, a, o); return sv(o); }, [&](int i, int j) { return J(i, j); });
   // the Jacobian does not depend on the residual having been evaluated first on this face
   DGLaxFriedrichsFluxIntegrator I2(q, up, &ir); DenseMatrix J2; if (idx % 2 == 0) usedBeforeFace(&I2, baseMesh(f.d == 3 ? 2 : 0, 2, 1), 2, mode == 0); awayFace(*f.T); I2.AssembleFaceGrad(*f.f1, *f.f2, *f.T, x, J2); eqm(J2, J, "face Jacobian evaluated on its own");
}
SX_CASE(lf_tri) { lfFace(baseMesh(1, 1, 1), 0, 1, 0, 1); }
SX_CASE(lf_quad) { lfFace(baseMesh(0, 1, 2), 0, 1, 0, 1); }
SX_CASE(lf_quad_2points) { lfFace(baseMesh(0, 2, 1), 0, 1, 0, 2); }
SX_CASE(lf_outflow) { lfFace(baseMesh(1, 1, 1), 1); }
SX_CASE(lf_dirichlet) { lfFace(baseMesh(1, 1, 1), 2, 1, 1); }
SX_CASE(lf_mixed12) { lfFace(baseMesh(1, 1, 1), 0, 1, 0, 1, 2); }
SX_CASE_THOROUGH(lf_mixed21) { lfFace(baseMesh(1, 1, 1), 0, 2, 0, 1, 1); }
SX_CASE_THOROUGH(lf_tri2) { lfFace(baseMesh(1, 1, 1), 0, 2, 0, 3); }
SX_CASE_THOROUGH(lf_tet) { lfFace(baseMesh(3, 1, 1, 1), 0, 1, 0, 1); }
// a fluid at rest is a valid state: residual and Jacobian vanish there
SX_CASE(lf_rest)
{
   FaceFix f(baseMesh(1, 1, 1), 1, false); ConstantCoefficient q(sx::real("q", 0.5, 2)); DGLaxFriedrichsFluxIntegrator I1(q); Vector x(f.nv()), r; x = 0.0; DenseMatrix J;
   I1.AssembleFaceVector(*f.f1, *f.f2, *f.T, x, r); I1.AssembleFaceGrad(*f.f1, *f.f2, *f.T, x, J);
   for (int i = 0; i < r.Size(); i++) { sx::eq(r[i], 0.0, "residual at rest" + I(i)); for (int j = 0; j < r.Size(); j++) sx::eq(J(i, j), 0.0, "Jacobian at rest" + I(i, j)); }
}
