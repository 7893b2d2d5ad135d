// Interior-penalty coupling of subdomains == the discontinuous Galerkin operator of the undecomposed domain
#include "dd.hpp"
#include "dg_bilinear.hpp"
#include "dg_mixed_bilin.hpp"
#include "nonlinear_integ.hpp"
// theta-linear reference from MFEM's own monolithic integrator, assembled on the parent mesh with
// unit coefficients and combined: sum_i theta_i (A_i(0,0) + alpha dA_i/dalpha + kappa dA_i/dkappa)
template <class MK> DenseMatrix combine(int np, std::function<double(int)> th, double al, double ka, MK mk)
{
   DenseMatrix R;
   for (int i = 0; i < np; i++)
   {
      DenseMatrix A = mk(i, 0.0, 0.0), B = mk(i, 1.0, 0.0), C = mk(i, 0.0, 1.0);
      if (i == 0) { R.SetSize(A.Height(), A.Width()); R = 0.0; }
      double t = th(i);
      for (int r = 0; r < A.Height(); r++) for (int c = 0; c < A.Width(); c++)
      {
         double a = A(r, c), b = B(r, c) - a, k = C(r, c) - a;
         if (a != 0.0 || b != 0.0 || k != 0.0) R(r, c) += t * (a + al * b + ka * k);
      }
   }
   return R;
}
template <class MKI> DenseMatrix faceSum(DD &d, Spaces &s, MKI integ)
{
   DenseMatrix G(s.pf->GetVSize()); G = 0.0;
   addFaces(d, [&](FaceElementTransformations &T) {
      DenseMatrix m; integ.AssembleFaceMatrix(*s.pf->GetFE(T.Elem1No), *s.pf->GetFE(T.Elem2No), T, m);
      Array<int> v; vd2(s.pf, T, v); addTo(G, v, v, m, 1.0); }, true, false);
   return G;
}
static void diffusion(Mesh m, std::vector<int> part, int na, int order, bool coef, bool lin = true, bool kz = false)
{
   DD d(m, part); Spaces s(d, order, 1);
   double sg = sx::real("sigma", -1, 1), ka = kz ? 0.0 : sx::real("kappa", 1, 20);
   AttrCoef q = symCoef("Q", na, d.pm.Dimension(), lin);
   InterfaceForm f(d.meshes, s.fes, d.th);
   f.AddInterfaceIntegrator(coef ? new InterfaceDGDiffusionIntegrator(q, sg, ka) : new InterfaceDGDiffusionIntegrator(sg, ka));
   auto B = blocks(s, s); f.AssembleInterfaceMatrices(B);
   DenseMatrix G = toParent(s, s, B), R;
   if (coef) R = combine(q.np(), [&](int i) { return q.p(i); }, sg, ka, [&](int i, double a, double k) { AttrCoef u = unitCoef(q, i); return faceSum(d, s, DGDiffusionIntegrator(u, a, k)); });
   else R = combine(1, [&](int) { return 1.0; }, sg, ka, [&](int i, double a, double k) { return faceSum(d, s, DGDiffusionIntegrator(a, k)); });
   eqm(G, R, "coupled diffusion operator equals the undecomposed one");
}
static std::vector<int> P(std::initializer_list<int> l) { return l; }
SX_CASE(diff_quad_2x2_parts) { diffusion(baseMesh(0, 2, 2), choosePart(4, 2), 2, 1, true); }
SX_CASE(diff_quad_2x2_3parts) { auto p = choosePart(4, 3); diffusion(baseMesh(0, 2, 2), p, 3, 1, true, false); }
SX_CASE(diff_tri_parts) { auto p = choosePart(4, 2); diffusion(baseMesh(1, 2, 1), p, 2, 1, true); }
SX_CASE(diff_nocoef) { diffusion(baseMesh(0, 2, 2), P({1, 2, 3, 4}), 4, 1, false); }
SX_CASE(diff_order2) { diffusion(baseMesh(1, 1, 1), P({1, 2}), 2, 2, true); }
SX_CASE(diff_hex) { diffusion(baseMesh(2, 2, 1, 1), P({1, 2}), 2, 1, true); }
SX_CASE(diff_hex_rev) { diffusion(baseMesh(2, 1, 2, 1), P({2, 1}), 2, 1, true); }
SX_CASE(diff_hex_parts) { auto p = choosePart(4, 2); diffusion(baseMesh(2, 2, 2, 1), p, 2, 1, true, false); }
SX_CASE(diff_tet) { diffusion(baseMesh(3, 1, 1, 1), P({1, 2, 2, 1, 3, 3}), 3, 1, true, false); }
SX_CASE_THOROUGH(diff_tet_parts) { auto p = choosePart(6, 2); diffusion(baseMesh(3, 1, 1, 1), p, 2, 1, true, false); }
SX_CASE_THOROUGH(diff_tri22_parts) { auto p = choosePart(8, 2); diffusion(baseMesh(1, 2, 2), p, 2, 1, true, false); }
SX_CASE_THOROUGH(diff_quad_order3) { diffusion(baseMesh(0, 2, 1), P({1, 2}), 2, 3, true); }
// matrix-valued diffusivity
static void diffMatrix(Mesh m, bool kz)
{
   DD d(m, P({1, 2})); Spaces s(d, 1, 1);
   double sg = sx::real("sigma", -1, 1), ka = kz ? 0.0 : sx::real("kappa", 1, 20);
   DenseMatrix K = mat(2, 2, "K", 0.25, 2); MatrixConstantCoefficient KC(K);
   InterfaceForm f(d.meshes, s.fes, d.th); f.AddInterfaceIntegrator(new InterfaceDGDiffusionIntegrator(KC, sg, ka));
   auto B = blocks(s, s); f.AssembleInterfaceMatrices(B); DenseMatrix G = toParent(s, s, B);
   DenseMatrix R = combine(4, [&](int i) { return K(i / 2, i % 2); }, sg, ka, [&](int i, double a, double k) { DenseMatrix E(2, 2); E = 0.0; E(i / 2, i % 2) = 1.0; MatrixConstantCoefficient u(E); return faceSum(d, s, DGDiffusionIntegrator(u, a, k)); });
   eqm(G, R, "matrix diffusivity");
}
SX_CASE(diff_matrixcoef) { diffMatrix(baseMesh(0, 2, 1), false); }
// without penalty
SX_CASE(diff_nopenalty) { diffusion(baseMesh(0, 2, 1), P({1, 2}), 2, 1, true, true, true); diffusion(baseMesh(1, 1, 1), P({2, 1}), 2, 1, false, true, true); }
SX_CASE(diff_matrixcoef_nopenalty) { diffMatrix(baseMesh(1, 1, 1), true); }
static void vecdiff(Mesh m, std::vector<int> part, int na, bool byv, bool kz = false)
{
   DD d(m, part); const int dim = d.pm.Dimension(); Spaces s(d, 1, dim, byv), s1(d, 1, 1);
   double al = sx::real("alpha", -1, 1), ka = kz ? 0.0 : sx::real("kappa", 1, 20);
   AttrCoef q = symCoef("mu", na, dim, false);
   InterfaceForm f(d.meshes, s.fes, d.th); f.AddInterfaceIntegrator(new InterfaceDGVectorDiffusionIntegrator(q, al, ka));
   auto B = blocks(s, s); f.AssembleInterfaceMatrices(B); DenseMatrix G = toParent(s, s, B);
   DenseMatrix R1 = combine(q.np(), [&](int i) { return q.p(i); }, al, ka, [&](int i, double a, double k) { AttrCoef u = unitCoef(q, i); return faceSum(d, s1, DGDiffusionIntegrator(u, a, k)); });
   const int N = s1.pf->GetVSize(); DenseMatrix R(dim * N); R = 0.0;
   for (int c = 0; c < dim; c++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) R(byv ? i * dim + c : c * N + i, byv ? j * dim + c : c * N + j) = R1(i, j);
   eqm(G, R, "coupled vector diffusion equals the undecomposed one, component by component");
   // and the repository's own interior-face integrator agrees on the same faces
   DenseMatrix G2(s.pf->GetVSize()); G2 = 0.0; DGVectorDiffusionIntegrator I2(q, al, ka);
   addFaces(d, [&](FaceElementTransformations &T) { DenseMatrix e; I2.AssembleFaceMatrix(*s.pf->GetFE(T.Elem1No), *s.pf->GetFE(T.Elem2No), T, e); Array<int> v; vd2(s.pf, T, v); addTo(G2, v, v, e, 1.0); }, true, false);
   eqm(G, G2, "coupled vector diffusion equals the interior-face form");
}
SX_CASE(vecdiff_quad) { vecdiff(baseMesh(0, 2, 1), P({1, 2}), 2, false); }
SX_CASE(vecdiff_quad_rev) { vecdiff(baseMesh(0, 1, 2), P({2, 1}), 2, true); }
SX_CASE(vecdiff_tri_parts) { auto p = choosePart(4, 2); vecdiff(baseMesh(1, 2, 1), p, 2, false); }
SX_CASE_THOROUGH(vecdiff_tet) { vecdiff(baseMesh(3, 1, 1, 1), P({1, 2, 1, 2, 3, 3}), 3, false); }
SX_CASE(vecdiff_nopenalty) { vecdiff(baseMesh(0, 2, 1), P({1, 2}), 2, false, true); }
static void elasticity(Mesh m, std::vector<int> part, int na, bool kz = false)
{
   DD d(m, part); const int dim = d.pm.Dimension(); Spaces s(d, 1, dim);
   double al = sx::real("alpha", -1, 1), ka = kz ? 0.0 : sx::real("kappa", 1, 20);
   AttrCoef la = symCoef("lambda", na, dim, false), mu = symCoef("mu", na, dim, true);
   InterfaceForm f(d.meshes, s.fes, d.th); f.AddInterfaceIntegrator(new InterfaceDGElasticityIntegrator(&la, &mu, al, ka));
   auto B = blocks(s, s); f.AssembleInterfaceMatrices(B); DenseMatrix G = toParent(s, s, B);
   const int nl = la.np();
   DenseMatrix R = combine(nl + mu.np(), [&](int i) { return i < nl ? la.p(i) : mu.p(i - nl); }, al, ka, [&](int i, double a, double k) {
      AttrCoef l = unitCoef(la, i < nl ? i : -1), u = unitCoef(mu, i < nl ? -1 : i - nl); return faceSum(d, s, DGElasticityIntegrator(l, u, a, k)); });
   eqm(G, R, "coupled elasticity operator equals the undecomposed one");
}
SX_CASE(elast_quad) { elasticity(baseMesh(0, 2, 1), P({1, 2}), 2); }
SX_CASE(elast_tri_parts) { auto p = choosePart(4, 2); elasticity(baseMesh(1, 2, 1), p, 2); }
SX_CASE(elast_quad_rev) { elasticity(baseMesh(0, 1, 2), P({2, 1}), 2); }
SX_CASE_THOROUGH(elast_tet) { elasticity(baseMesh(3, 1, 1, 1), P({1, 2, 1, 2, 3, 3}), 3); }
SX_CASE(elast_nopenalty) { elasticity(baseMesh(0, 2, 1), P({1, 2}), 2, true); }
// pressure-velocity coupling: trial velocity, test pressure
static void normalflux(Mesh m, std::vector<int> part, int ou, int op)
{
   DD d(m, part); const int dim = d.pm.Dimension(); Spaces u(d, ou, dim), p(d, op, 1);
   MixedInterfaceForm f(d.meshes, u.fes, p.fes, d.th); f.AddInterfaceIntegrator(new InterfaceDGNormalFluxIntegrator);
   auto B = blocks(p, u); f.AssembleInterfaceMatrices(B);
   Vector x = vec(u.pf->GetVSize(), "u"), y(p.pf->GetVSize()); y = 0.0;
   DenseMatrix G = toParent(p, u, B); for (int i = 0; i < G.Height(); i++) for (int j = 0; j < G.Width(); j++) y[i] += G(i, j) * x[j];
   DenseMatrix G2(p.pf->GetVSize(), u.pf->GetVSize()); G2 = 0.0; DGNormalFluxIntegrator I2;
   addFaces(d, [&](FaceElementTransformations &T) { DenseMatrix e; I2.AssembleFaceMatrix(*u.pf->GetFE(T.Elem1No), *u.pf->GetFE(T.Elem2No), *p.pf->GetFE(T.Elem1No), *p.pf->GetFE(T.Elem2No), T, e); Array<int> a, b; vd2(p.pf, T, a); vd2(u.pf, T, b); addTo(G2, a, b, e, 1.0); }, true, false);
   Vector y2(y.Size()); y2 = 0.0; for (int i = 0; i < G.Height(); i++) for (int j = 0; j < G.Width(); j++) y2[i] += G2(i, j) * x[j];
   eqv(y, y2, "coupled divergence equals the undecomposed one, interior-face form");
   // independent statement: int_F {q} [u].n
   Vector z(y.Size()); z = 0.0;
   addFaces(d, [&](FaceElementTransformations &T) {
      const FiniteElement &e1 = *u.pf->GetFE(T.Elem1No), &e2 = *u.pf->GetFE(T.Elem2No), &q1 = *p.pf->GetFE(T.Elem1No), &q2 = *p.pf->GetFE(T.Elem2No);
      const IntegrationRule &ir = IntRules.Get(T.GetGeometryType(), 2 * std::max(ou, op) + 2); Array<int> v1, v2, w1, w2;
      u.pf->GetElementVDofs(T.Elem1No, v1); u.pf->GetElementVDofs(T.Elem2No, v2); p.pf->GetElementVDofs(T.Elem1No, w1); p.pf->GetElementVDofs(T.Elem2No, w2);
      for (int k = 0; k < ir.GetNPoints(); k++)
      {
         const IntegrationPoint &ip = ir.IntPoint(k); T.SetAllIntPoints(&ip);
         Vector n(dim), s1(e1.GetDof()), s2(e2.GetDof()), t1(q1.GetDof()), t2(q2.GetDof()); CalcOrtho(T.Jacobian(), n);
         e1.CalcShape(T.GetElement1IntPoint(), s1); e2.CalcShape(T.GetElement2IntPoint(), s2); q1.CalcShape(T.GetElement1IntPoint(), t1); q2.CalcShape(T.GetElement2IntPoint(), t2);
         double un = 0; for (int c = 0; c < dim; c++) { for (int i = 0; i < s1.Size(); i++) un += n[c] * s1[i] * x[v1[c * s1.Size() + i]]; for (int i = 0; i < s2.Size(); i++) un -= n[c] * s2[i] * x[v2[c * s2.Size() + i]]; }
         for (int i = 0; i < t1.Size(); i++) z[w1[i]] += 0.5 * ip.weight * un * t1[i]; for (int i = 0; i < t2.Size(); i++) z[w2[i]] += 0.5 * ip.weight * un * t2[i];
      } }, true, false);
   eqv(y, z, "coupled divergence is the average-jump face integral");
}
SX_CASE(flux_quad) { auto p = choosePart(2, 2); normalflux(baseMesh(0, 2, 1), p, 1, 1); }
SX_CASE(flux_tri_parts) { auto p = choosePart(4, 2); normalflux(baseMesh(1, 2, 1), p, 1, 0); }
SX_CASE(flux_tri_order) { normalflux(baseMesh(1, 1, 1), P({1, 2}), 2, 1); }
SX_CASE_THOROUGH(flux_tet) { normalflux(baseMesh(3, 1, 1, 1), P({1, 2, 1, 2, 3, 3}), 1, 0); }
// ---- element orders may differ on the two sides of an interface: the coupling is the one of the undecomposed face
static Mesh pairMesh() { return baseMesh(1, 1, 1); }
struct Sides { DD d; L2_FECollection a, b; FiniteElementSpace f1, f2; FaceElementTransformations *t1, *t2, *T; const FiniteElement *e1, *e2; int dim, n1, n2;
   Sides(int o1, int o2, int vd) : d(pairMesh(), P({1, 2})), a(o1, 2, BasisType::GaussLobatto), b(o2, 2, BasisType::GaussLobatto), f1(d.meshes[0], &a, vd), f2(d.meshes[1], &b, vd), T(nullptr), dim(2)
   {
      d.th->GetInterfaceTransformations(d.meshes[0], d.meshes[1], &(*d.th->GetInterfaceInfos(0))[0], t1, t2); e1 = f1.GetFE(0); e2 = f2.GetFE(0); n1 = e1->GetDof(); n2 = e2->GetDof();
      for (int f = 0; f < d.pm.GetNumFaces() && !T; f++) T = d.pm.GetInteriorFaceTransformations(f);
   }
   template <class IN> DenseMatrix coupled(IN &in, int v) { Array2D<DenseMatrix *> E(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) E(i, j) = new DenseMatrix; in.AssembleInterfaceMatrix(*e1, *e2, *t1, *t2, E); DenseMatrix R(v * (n1 + n2)); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { sx::check(E(i, j)->Height() == v * (i ? n2 : n1) && E(i, j)->Width() == v * (j ? n2 : n1), "block size" + I(i, j)); R.CopyMN(*E(i, j), i * v * n1, j * v * n1); } return R; }
};
static void mixedOrders(int o1, int o2)
{
   double sg = sx::real("sigma", -1, 1), ka = sx::real("kappa", 1, 20);
   Sides s(o1, o2, 1), v(o1, o2, 2); AttrCoef q = symCoef("Q", 2, 2, false), la = symCoef("lambda", 2, 2, false);
   auto comb = [&](int np, std::function<double(int)> th, std::function<DenseMatrix(int, double, double)> mk) { return combine(np, th, sg, ka, mk); };
   auto scal = [&](int i, double al, double k) { AttrCoef u = unitCoef(q, i); DGDiffusionIntegrator D(u, al, k); DenseMatrix m; D.AssembleFaceMatrix(*s.e1, *s.e2, *s.T, m); return m; };
   DenseMatrix R = comb(q.np(), [&](int i) { return q.p(i); }, scal);
   InterfaceDGDiffusionIntegrator ID(q, sg, ka); eqm(s.coupled(ID, 1), R, "diffusion, different orders on the two sides");
   const int n1 = s.n1, n2 = s.n2, n = n1 + n2; DenseMatrix V(2 * n); V = 0.0; auto at = [&](int c, int i) { return i < n1 ? c * n1 + i : 2 * n1 + c * n2 + i - n1; };
   for (int c = 0; c < 2; c++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) V(at(c, i), at(c, j)) = R(i, j);
   InterfaceDGVectorDiffusionIntegrator IV(q, sg, ka); eqm(v.coupled(IV, 2), V, "vector diffusion, different orders on the two sides");
   DGVectorDiffusionIntegrator FV(q, sg, ka); DenseMatrix m; FV.AssembleFaceMatrix(*v.e1, *v.e2, *v.T, m); eqm(m, V, "vector diffusion on a face, different orders on the two sides");
   const int nl = la.np(); DenseMatrix El = comb(nl + q.np(), [&](int i) { return i < nl ? la.p(i) : q.p(i - nl); }, [&](int i, double al, double k) { AttrCoef l = unitCoef(la, i < nl ? i : -1), u = unitCoef(q, i < nl ? -1 : i - nl); DGElasticityIntegrator D(l, u, al, k); DenseMatrix e; D.AssembleFaceMatrix(*v.e1, *v.e2, *v.T, e); return e; });
   InterfaceDGElasticityIntegrator IE(&la, &q, sg, ka); eqm(v.coupled(IE, 2), El, "elasticity, different orders on the two sides");
}
SX_CASE(mixed_orders_12) { mixedOrders(1, 2); }
SX_CASE(mixed_orders_21) { mixedOrders(2, 1); }
SX_CASE(orders_33) { mixedOrders(3, 3); }
// velocity and pressure orders all different
static void mixedFlux(int u1, int u2, int p1, int p2)
{
   Sides u(u1, u2, 2), p(p1, p2, 1); InterfaceDGNormalFluxIntegrator in; DGNormalFluxIntegrator fi; DenseMatrix m; fi.AssembleFaceMatrix(*u.e1, *u.e2, *p.e1, *p.e2, *u.T, m);
   const int nu = 2 * (u.n1 + u.n2), np = p.n1 + p.n2; Vector x = vec(nu, "u"), z(np), y(np), y2(np); z = 0.0; y = 0.0; y2 = 0.0; FaceElementTransformations &T = *u.T;
   const IntegrationRule &ir = IntRules.Get(T.GetGeometryType(), 8);
   for (int k = 0; k < ir.GetNPoints(); k++)
   {
      const IntegrationPoint &ip = ir.IntPoint(k); T.SetAllIntPoints(&ip); Vector n(2), s1(u.n1), s2(u.n2), t1(p.n1), t2(p.n2); CalcOrtho(T.Jacobian(), n);
      u.e1->CalcShape(T.GetElement1IntPoint(), s1); u.e2->CalcShape(T.GetElement2IntPoint(), s2); p.e1->CalcShape(T.GetElement1IntPoint(), t1); p.e2->CalcShape(T.GetElement2IntPoint(), t2);
      double un = 0; for (int c = 0; c < 2; c++) { for (int i = 0; i < u.n1; i++) un += n[c] * s1[i] * x[c * u.n1 + i]; for (int i = 0; i < u.n2; i++) un -= n[c] * s2[i] * x[2 * u.n1 + c * u.n2 + i]; }
      for (int i = 0; i < p.n1; i++) z[i] += 0.5 * ip.weight * un * t1[i]; for (int i = 0; i < p.n2; i++) z[p.n1 + i] += 0.5 * ip.weight * un * t2[i];
   }
   sx::check(m.Height() == np && m.Width() == nu, "face matrix size"); for (int i = 0; i < np; i++) for (int j = 0; j < nu; j++) y[i] += m(i, j) * x[j];
   eqv(y, z, "divergence on a face, different orders on the two sides");
   Array2D<DenseMatrix *> E(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) E(i, j) = new DenseMatrix; in.AssembleInterfaceMatrix(*u.e1, *u.e2, *p.e1, *p.e2, *u.t1, *u.t2, E);
   for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { sx::check(E(i, j)->Height() == (i ? p.n2 : p.n1) && E(i, j)->Width() == 2 * (j ? u.n2 : u.n1), "block size" + I(i, j)); for (int r = 0; r < E(i, j)->Height(); r++) for (int c = 0; c < E(i, j)->Width(); c++) y2[(i ? p.n1 : 0) + r] += (*E(i, j))(r, c) * x[(j ? 2 * u.n1 : 0) + c]; }
   eqv(y2, z, "coupled divergence, different orders on the two sides");
}
SX_CASE(mixed_flux_1201) { mixedFlux(1, 2, 0, 1); }
SX_CASE(mixed_flux_2110) { mixedFlux(2, 1, 1, 0); }
SX_CASE(mixed_flux_3322) { mixedFlux(3, 3, 2, 2); }
