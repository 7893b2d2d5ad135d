// convection terms of the undecomposed flow problem
#pragma once
#include "phys.hpp"
#include "nonlinear_integ.hpp"
#include "hyperreduction_integ.hpp"
static void data() { for (int a : ATTR) for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) BV[a].c[k][i] = k < 2 ? 0.25 * (1 + (a + 2 * k + 3 * i) % 5) - 0.5 : 0.0; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) SRC.c[k][i] = 0.25 + 0.5 * k - 0.125 * i; }
struct Convection
{
   World2 &w; bool inner; std::unique_ptr<HyperReductionIntegrator> flux; Parent &pu; NonlinearForm h; std::vector<std::unique_ptr<VectorFunctionCoefficient>> g; std::vector<Array<int>> mk; ConstantCoefficient z, mz;
   Convection(World2 &w, Parent &pu_, bool lf, const S &k, double zeta) : w(w), inner(w.dg), pu(pu_), h(pu_.f.get()), z(zeta), mz(-zeta)
   {
      const int q = 5; const IntegrationRule &ir = IntRules.Get(pu.f->GetFE(0)->GetGeomType(), q), &fr = IntRules.Get(Geometry::SEGMENT, q); auto set = [&](NonlinearFormIntegrator *i, const IntegrationRule &r) { i->SetIntRule(&r); return i; };
      if (!lf) { h.AddDomainIntegrator(set(new VectorConvectionTrilinearFormIntegrator(z), ir)); return; }
      h.AddDomainIntegrator(set(new IncompressibleInviscidFluxNLFIntegrator(mz), ir)); flux.reset(new DGLaxFriedrichsFluxIntegrator(mz)); flux->SetIntRule(&fr);
      for (int s = 0; s < 4; s++) { Array<int> m(w.pm.bdr_attributes.Max()); m = 0; m[ATTR[s] - 1] = 1; mk.push_back(m); const int f = w.func(k, s); const char c = w.kind(k, s); if (c == 'D') g.emplace_back(new VectorFunctionCoefficient(2, FB[f])); else if (c == 'Z') g.emplace_back(new VectorFunctionCoefficient(2, [](const Vector &, Vector &y) { y = 0.0; })); else g.emplace_back(nullptr); }
      for (int s = 0; s < 4; s++) h.AddBdrFaceIntegrator(set(g[s] ? new DGLaxFriedrichsFluxIntegrator(mz, g[s].get()) : new DGLaxFriedrichsFluxIntegrator(mz), fr), mk[s]);
   }
   void at(double t) { for (auto &c : g) if (c) c->SetTime(t); }
   // faces between elements; the fluxes through the faces inside a subdomain cancel where the functions are continuous
   template <class F> void faces(F f) { Mesh &m = w.pm; if (flux) for (int i = 0; i < m.GetNumFaces(); i++) if (FaceElementTransformations *T = m.GetInteriorFaceTransformations(i)) { if (!inner && m.GetAttribute(T->Elem1No) == m.GetAttribute(T->Elem2No)) continue; Array<int> a, b; pu.f->GetElementVDofs(T->Elem1No, a); pu.f->GetElementVDofs(T->Elem2No, b); a.Append(b); f(*pu.f->GetFE(T->Elem1No), *pu.f->GetFE(T->Elem2No), *T, a); } }
   Vector lift(const Vector &x) { Vector y(pu.f->GetVSize()); y = 0.0; int k = 0; for (auto &P : pu.P) for (auto &c : P) { for (auto &p : c) y[p.first] += p.second * x[k]; k++; } return y; }
   Vector value(const Vector &x) { Vector n(pu.f->GetVSize()), r(x.Size()); Vector y = lift(x), z, r1; h.Mult(y, n); faces([&](const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T, Array<int> &d) { y.GetSubVector(d, z); flux->AssembleFaceVector(a, b, T, z, r1); n.AddElementVector(d, r1); }); int k = 0; for (int m = 0; m < (int)pu.P.size(); m++) { Vector v = pu.rhs(m, n); for (int i = 0; i < v.Size(); i++) r[k++] = v[i]; } return r; }
   DenseMatrix slope(const Vector &x)
   {
      Vector y = lift(x); DenseMatrix J = dense(dynamic_cast<SparseMatrix &>(h.GetGradient(y))), R(x.Size()), j; Vector z; faces([&](const FiniteElement &e, const FiniteElement &f, FaceElementTransformations &T, Array<int> &d) { y.GetSubVector(d, z); flux->AssembleFaceGrad(e, f, T, z, j); addTo(J, d, d, j, 1.0); }); int a = 0; for (int i = 0; i < (int)pu.P.size(); i++) { int b = 0; for (int j = 0; j < (int)pu.P.size(); j++) { DenseMatrix d = reduce(pu, i, pu, j, J); for (int r = 0; r < d.Height(); r++) for (int c = 0; c < d.Width(); c++) R(a + r, b + c) = d(r, c); b += pu.P[j].size(); } a += pu.P[i].size(); } return R;
   }
};
