// element / face fixtures for the nonlinear integrators
#pragma once
#include "dd.hpp"
#include "nonlinear_integ.hpp"
#include "hyperreduction_integ.hpp"
#include "interfaceinteg.hpp"
// velocity coefficient linear in space, symbolic level, fixed slope
struct LinVec : public VectorCoefficient
{
   std::vector<double> a; int d;
   LinVec(const S &n, int dim, double lo = -1, double hi = 1) : VectorCoefficient(dim), d(dim) { for (int i = 0; i < dim * (dim + 1); i++) a.push_back(i % (dim + 1) ? 0.03125 * (i + 1) : sx::real(n + I(i), lo, hi)); }
   void Eval(Vector &v, ElementTransformation &T, const IntegrationPoint &ip) override
   { double xd[3]; Vector x(xd, 3); T.Transform(ip, x); v.SetSize(d); for (int c = 0; c < d; c++) { double s = a[c * (d + 1)]; for (int k = 0; k < d; k++) s += a[c * (d + 1) + 1 + k] * xd[k]; v[c] = s; } }
};
static inline std::vector<double> sv(const Vector &v) { return std::vector<double>(v.GetData(), v.GetData() + v.Size()); }
struct ElemFix { Mesh m; L2_FECollection fec; FiniteElementSpace fes; const FiniteElement *fe; ElementTransformation *T;
   ElemFix(const Mesh &mm, int order, int e = 0) : m(mm), fec(order, mm.Dimension(), BasisType::GaussLobatto), fes(&m, &fec, mm.Dimension()), fe(fes.GetFE(e)), T(fes.GetElementTransformation(e)) {}
   int dim() { return m.Dimension(); } int nd() { return fe->GetDof(); } int nv() { return nd() * dim(); } };
struct FaceFix { Mesh m; L2_FECollection fec; FiniteElementSpace fes; L2_FECollection fecb; FiniteElementSpace fesb; FaceElementTransformations *T; const FiniteElement *f1, *f2; int n1, n2, d;
   FaceFix(const Mesh &mm, int order, bool bdr, int idx = 0, int order2 = 0) : m(mm), fec(order, mm.Dimension(), BasisType::GaussLobatto), fes(&m, &fec, mm.Dimension()), fecb(order2 ? order2 : order, mm.Dimension(), BasisType::GaussLobatto), fesb(&m, &fecb, mm.Dimension()), T(nullptr)
   {
      if (bdr) T = m.GetBdrFaceTransformations(idx);
      else for (int f = 0; f < m.GetNumFaces() && !T; f++) { T = m.GetInteriorFaceTransformations(f); if (T && idx-- > 0) T = nullptr; }
      f1 = fes.GetFE(T->Elem1No); f2 = bdr ? f1 : fesb.GetFE(T->Elem2No);   // the second side may carry another order
      n1 = f1->GetDof(); n2 = bdr ? 0 : f2->GetDof(); d = m.Dimension();
   }
   int nv() { return d * (n1 + n2); } };
// move a transformation away from the point it was last used at (what was done before must not matter)
static inline void away(ElementTransformation &T) { IntegrationPoint p; p.Set3(0.1875, 0.3125, 0.0625); T.SetIntPoint(&p); T.Weight(); T.Jacobian(); T.InverseJacobian(); }
static inline void awayFace(FaceElementTransformations &T) { IntegrationPoint p; p.Set2(0.1875, 0.3125); T.SetAllIntPoints(&p); T.Weight(); T.Jacobian(); T.Elem1->Weight(); T.Elem1->InverseJacobian(); if (T.Elem2No >= 0) { T.Elem2->Weight(); T.Elem2->InverseJacobian(); } }
// use an integrator once on a different element (other shape, order and state) before the checked use
static inline void usedBefore(NonlinearFormIntegrator *I, const Mesh &m, int order) { ElemFix g(m, order); Vector z(g.nv()), o; for (int i = 0; i < z.Size(); i++) z[i] = 0.25 + 0.0625 * (i % 5); DenseMatrix j; const IntegrationRule *ir = I->GetIntegrationRule(); I->SetIntRule(&IntRules.Get(g.fe->GetGeomType(), 3)); I->AssembleElementVector(*g.fe, *g.T, z, o); I->AssembleElementGrad(*g.fe, *g.T, z, j); I->SetIntRule(ir); }
static inline void usedBeforeFace(NonlinearFormIntegrator *I, const Mesh &m, int order, bool bdr) { FaceFix g(m, order, bdr); Vector z(g.nv()), o; for (int i = 0; i < z.Size(); i++) z[i] = 0.25 + 0.0625 * (i % 5); DenseMatrix j; I->AssembleFaceVector(*g.f1, *g.f2, *g.T, z, o); I->AssembleFaceGrad(*g.f1, *g.f2, *g.T, z, j); }
// value of the discrete function and of its gradient at the current point; x is by component (nd per component)
static inline double at(const Vector &sh, const double *x, int c) { double s = 0; for (int i = 0; i < sh.Size(); i++) s += sh[i] * x[c * sh.Size() + i]; return s; }
static inline double dat(const DenseMatrix &ds, const double *x, int c, int k) { double s = 0; const int n = ds.Height(); for (int i = 0; i < n; i++) s += ds(i, k) * x[c * n + i]; return s; }
// the two sides of a subdomain interface, possibly with different orders
struct Itf { DD d; L2_FECollection fec, fecb; FiniteElementSpace f1, f2; FaceElementTransformations *t1, *t2; const FiniteElement *e1, *e2;
   Itf(const Mesh &m, std::vector<int> p, int o2 = 1, int o1 = 1) : d(m, p), fec(o1, m.Dimension(), BasisType::GaussLobatto), fecb(o2, m.Dimension(), BasisType::GaussLobatto), f1(d.meshes[0], &fec, m.Dimension()), f2(d.meshes[1], &fecb, m.Dimension())
   { d.th->GetInterfaceTransformations(d.meshes[0], d.meshes[1], &(*d.th->GetInterfaceInfos(0))[0], t1, t2); e1 = f1.GetFE(t1->Elem1No); e2 = f2.GetFE(t2->Elem1No); } };
