// Hyper-reduction: pointwise pieces add up to the full integral, and the fast reduced evaluation is the
// projection of the full-order one, for vector and Jacobian alike
#include "nl.hpp"
#include "linalg_utils.hpp"
enum { CONV, FLUX };
static HyperReductionIntegrator *mkH(int k, Coefficient &q, VectorCoefficient *v = nullptr)
{ if (k == CONV) return new VectorConvectionTrilinearFormIntegrator(q, v); return new IncompressibleInviscidFluxNLFIntegrator(q); }
struct PosCoef : public Coefficient { double a, b; PosCoef() : a(sx::real("Qa", 0.5, 2)), b(0.125) {} double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { double xd[3]; Vector x(xd, 3); T.Transform(ip, x); return a + b * xd[0]; } };
// reduced basis: concrete positive entries, a few of them symbolic
static DenseMatrix basis(int n, int k, const S &nm, int nsym)
{
   DenseMatrix B(n, k);
   for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) B(i, j) = 0.25 + 0.125 * ((3 * i + 5 * j) % 7);
   for (int s = 0; s < nsym; s++) { int i = (2 * s + 1) % n, j = s % k; B(i, j) = sx::real(nm + I(i, j), 0.25, 1); }
   return B;
}
static Vector lift(const DenseMatrix &B, const Vector &x, int r0 = 0, int n = -1) { if (n < 0) n = B.Height(); Vector y(n); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < B.Width(); j++) s += B(r0 + i, j) * x[j]; y[i] = s; } return y; }
// EQP sample data at a point: value (dim x nbasis) and gradient (dim x dim per basis function)
static void sampleElem(EQPSample &s, const FiniteElement &fe, ElementTransformation &T, const IntegrationPoint &ip, const DenseMatrix &B)
{
   const int nd = fe.GetDof(), d = fe.GetDim(); Vector sh(nd); DenseMatrix ds(nd, d); T.SetIntPoint(&ip); fe.CalcShape(ip, sh); fe.CalcPhysDShape(T, ds);
   s.shape1 = new DenseMatrix(d, B.Width());
   for (int k = 0; k < B.Width(); k++) { DenseMatrix *g = new DenseMatrix(d); for (int c = 0; c < d; c++) { double v = 0; for (int i = 0; i < nd; i++) v += sh[i] * B(c * nd + i, k); (*s.shape1)(c, k) = v; for (int l = 0; l < d; l++) { double w = 0; for (int i = 0; i < nd; i++) w += ds(i, l) * B(c * nd + i, k); (*g)(c, l) = w; } } s.dshape1.Append(g); }
}
static void pieces(int k, const Mesh &m, int order, bool vq = false)
{
   ElemFix f(m, order); PosCoef q; LinVec v("v", f.dim()); HyperReductionIntegrator *I1 = mkH(k, q, vq ? &v : nullptr);
   const IntegrationRule &ir = IntRules.Get(f.fe->GetGeomType(), 2 * order + 1); I1->SetIntRule(&ir);
   Vector x = vec(f.nv(), "u"), full, sum(f.nv()), piece; sum = 0.0; DenseMatrix J, Js(f.nv()), Jp; Js = 0.0;
   usedBefore(I1, baseMesh(0, 1, 1), 2); away(*f.T);
   I1->AssembleElementVector(*f.fe, *f.T, x, full); away(*f.T); I1->AssembleElementGrad(*f.fe, *f.T, x, J);
   for (int p = 0; p < ir.GetNPoints(); p++)
   {
      const IntegrationPoint &ip = ir.IntPoint(p); piece.SetSize(1); piece = 7.0; away(*f.T);
      I1->AssembleQuadratureVector(*f.fe, *f.T, ip, ip.weight, x, piece); sum += piece; away(*f.T);
      I1->AssembleQuadratureGrad(*f.fe, *f.T, ip, ip.weight, x, Jp); Js += Jp;
   }
   eqv(sum, full, "pointwise vectors add up to the element vector"); eqm(Js, J, "pointwise Jacobians add up to the element Jacobian");
   // any weight: homogeneous
   double w = sx::real("w", 0, 2); Vector a, b; DenseMatrix A, B1; const IntegrationPoint &ip = ir.IntPoint(ir.GetNPoints() - 1);
   I1->AssembleQuadratureVector(*f.fe, *f.T, ip, w, x, a); I1->AssembleQuadratureVector(*f.fe, *f.T, ip, 1.0, x, b); b *= w; eqv(a, b, "weight scales the piece");
   I1->AssembleQuadratureGrad(*f.fe, *f.T, ip, w, x, A); I1->AssembleQuadratureGrad(*f.fe, *f.T, ip, 1.0, x, B1); B1 *= w; eqm(A, B1, "weight scales the Jacobian piece");
   for (int used = 0; used < 2; used++) { HyperReductionIntegrator *K = mkH(k, q, vq ? &v : nullptr), *L = mkH(k, q, vq ? &v : nullptr); if (used) { usedBefore(K, baseMesh(0, 1, 1), 2); usedBefore(L, baseMesh(0, 1, 1), 2); } away(*f.T); K->AssembleQuadratureGrad(*f.fe, *f.T, ip, 1.0, x, A); A *= w; eqm(A, B1, "Jacobian piece evaluated on its own"); away(*f.T); L->AssembleQuadratureVector(*f.fe, *f.T, ip, w, x, a); eqv(a, b, "piece evaluated on its own"); }
}
SX_CASE(pieces_conv_tri) { pieces(CONV, baseMesh(1, 1, 1), 1); }
SX_CASE(pieces_conv_quad) { pieces(CONV, baseMesh(0, 1, 1), 1); }
SX_CASE(pieces_conv_given) { pieces(CONV, baseMesh(1, 1, 1), 1, true); }
SX_CASE(pieces_flux_tri) { pieces(FLUX, baseMesh(1, 1, 1), 1); }
SX_CASE(pieces_flux_quad) { pieces(FLUX, baseMesh(0, 1, 1), 1); }
SX_CASE_THOROUGH(pieces_conv_tet) { pieces(CONV, baseMesh(3, 1, 1, 1), 1); }
SX_CASE_THOROUGH(pieces_flux_tri2) { pieces(FLUX, baseMesh(1, 1, 1), 2); }
static void fast(int k, const Mesh &m, int order, int nb, int nsym, bool vq = false)
{
   ElemFix f(m, order); PosCoef q; LinVec v("v", f.dim()); HyperReductionIntegrator *I1 = mkH(k, q, vq ? &v : nullptr);
   const IntegrationRule &ir = IntRules.Get(f.fe->GetGeomType(), 2 * order + 1); I1->SetIntRule(&ir);
   int qp = sx::choose("qp", 0, std::min(3, ir.GetNPoints()) - 1); double qw = sx::real("qw", 0, 2); const IntegrationPoint &ip = ir.IntPoint(qp);
   DenseMatrix B = basis(f.nv(), nb, "B", nsym); EQPSample s(SampleInfo({0, qp, qw})); sampleElem(s, *f.fe, *f.T, ip, B);
   Vector x = vec(nb, "x"), X = lift(B, x), full, y = vec(nb, "y0"), yr(y); DenseMatrix J = mat(nb, nb, "J0"), Jr(J), Jf;
   away(*f.T); I1->AddAssembleVector_Fast(s, *f.T, x, y); away(*f.T); I1->AddAssembleGrad_Fast(s, *f.T, x, J); away(*f.T);
   I1->AssembleQuadratureVector(*f.fe, *f.T, ip, qw, X, full); I1->AssembleQuadratureGrad(*f.fe, *f.T, ip, qw, X, Jf);
   for (int a = 0; a < nb; a++) { for (int i = 0; i < f.nv(); i++) yr[a] += B(i, a) * full[i]; for (int b = 0; b < nb; b++) for (int i = 0; i < f.nv(); i++) for (int j = 0; j < f.nv(); j++) Jr(a, b) += B(i, a) * Jf(i, j) * B(j, b); }
   eqv(y, yr, "fast vector adds the projected pointwise vector"); eqm(J, Jr, "fast Jacobian adds the projected pointwise Jacobian");
   DenseMatrix Jz(nb); Jz = 0.0; away(*f.T); I1->AddAssembleGrad_Fast(s, *f.T, x, Jz); away(*f.T);
   sx::jacobian("fast Jacobian is the derivative of the fast vector", sv(x), [&](std::vector<double> &z) { Vector a(z.data(), z.size()), o(nb); o = 0.0; I1->AddAssembleVector_Fast(s, *f.T, a, o); return sv(o); }, [&](int i, int j) { return Jz(i, j); });
}
SX_CASE(fast_conv_tri) { fast(CONV, baseMesh(1, 1, 1), 1, 2, 4); }
SX_CASE(fast_conv_quad) { fast(CONV, baseMesh(0, 1, 1), 1, 3, 2); }
SX_CASE(fast_conv_given) { fast(CONV, baseMesh(1, 1, 1), 1, 2, 2, true); }
SX_CASE(fast_flux_tri) { fast(FLUX, baseMesh(1, 1, 1), 1, 2, 4); }
SX_CASE(fast_flux_quad) { fast(FLUX, baseMesh(0, 1, 1), 1, 3, 2); }
SX_CASE_THOROUGH(fast_conv_tet) { fast(CONV, baseMesh(3, 1, 1, 1), 1, 3, 3); }
SX_CASE_THOROUGH(fast_flux_tet) { fast(FLUX, baseMesh(3, 1, 1, 1), 1, 3, 3); }
// ---- Lax-Friedrichs on faces (0 interior, 1 outflow, 2 boundary data)
static void sampleFace(EQPSample &s, FaceFix &f, const IntegrationPoint &ip, const DenseMatrix &B)
{
   f.T->SetAllIntPoints(&ip); const int d = f.d;
   for (int e = 0; e < (f.n2 ? 2 : 1); e++)
   {
      int n = e ? f.n2 : f.n1, o = e ? d * f.n1 : 0; Vector sh(n); (e ? f.f2 : f.f1)->CalcShape(e ? f.T->GetElement2IntPoint() : f.T->GetElement1IntPoint(), sh);
      DenseMatrix *M = new DenseMatrix(d, B.Width()); for (int k = 0; k < B.Width(); k++) for (int c = 0; c < d; c++) { double v = 0; for (int i = 0; i < n; i++) v += sh[i] * B(o + c * n + i, k); (*M)(c, k) = v; }
      (e ? s.shape2 : s.shape1) = M;
   }
}
static Vector posState(int n, const S &nm) { Vector x(n); for (int i = 0; i < n; i++) x[i] = sx::real(nm + I(i), 0.5, 1); return x; }
static void lfPieces(const Mesh &m, int mode, int order2 = 0)
{
   sx_nonzero_denominators(true);
   FaceFix f(m, 1, mode != 0, 0, order2); ConstantCoefficient q(sx::real("q", 0.5, 2)); LinVec ud("ud", f.d, 0.5, 1);
   const IntegrationRule &ir = IntRules.Get(f.T->GetGeometryType(), 2); DGLaxFriedrichsFluxIntegrator I1(q, mode == 2 ? &ud : nullptr, &ir);
   Vector x = posState(f.nv(), "u"), full, sum(f.nv()), p; sum = 0.0; DenseMatrix J, Js(f.nv()), Jp; Js = 0.0;
   I1.AssembleFaceVector(*f.f1, *f.f2, *f.T, x, full); I1.AssembleFaceGrad(*f.f1, *f.f2, *f.T, x, J);
   for (int i = 0; i < ir.GetNPoints(); i++) { const IntegrationPoint &ip = ir.IntPoint(i); awayFace(*f.T); I1.AssembleQuadratureVector(*f.f1, *f.f2, *f.T, ip, ip.weight, x, p); sum += p; awayFace(*f.T); I1.AssembleQuadratureGrad(*f.f1, *f.f2, *f.T, ip, ip.weight, x, Jp); Js += Jp; }
   eqv(sum, full, "pointwise face vectors add up"); eqm(Js, J, "pointwise face Jacobians add up");
   double w = sx::real("w", 0, 2); Vector a, b; const IntegrationPoint &ip = ir.IntPoint(0); I1.AssembleQuadratureVector(*f.f1, *f.f2, *f.T, ip, w, x, a); I1.AssembleQuadratureVector(*f.f1, *f.f2, *f.T, ip, 1.0, x, b); b *= w; eqv(a, b, "weight scales the face piece");
   DenseMatrix A, B1; I1.AssembleQuadratureGrad(*f.f1, *f.f2, *f.T, ip, w, x, A); I1.AssembleQuadratureGrad(*f.f1, *f.f2, *f.T, ip, 1.0, x, B1); B1 *= w; eqm(A, B1, "weight scales the face Jacobian piece");
   // nothing evaluated before, or something on another face: the same Jacobian piece
   DGLaxFriedrichsFluxIntegrator I2(q, mode == 2 ? &ud : nullptr, &ir), I3(q, mode == 2 ? &ud : nullptr, &ir); usedBeforeFace(&I3, baseMesh(0, 2, 1), 2, mode == 0);
   for (auto *K : {&I2, &I3}) { K->AssembleQuadratureGrad(*f.f1, *f.f2, *f.T, ip, 1.0, x, A); A *= w; eqm(A, B1, "face Jacobian piece evaluated on its own"); }
}
SX_CASE(lf_pieces_interior) { lfPieces(baseMesh(1, 1, 1), 0); }
SX_CASE(lf_pieces_mixed) { lfPieces(baseMesh(1, 1, 1), 0, 2); }
SX_CASE(lf_pieces_quad) { lfPieces(baseMesh(0, 2, 1), 0); }
SX_CASE(lf_pieces_outflow) { lfPieces(baseMesh(1, 1, 1), 1); }
SX_CASE(lf_pieces_dirichlet) { lfPieces(baseMesh(1, 1, 1), 2); }
static void lfFast(const Mesh &m, int mode, int before, int nb)
{
   sx_nonzero_denominators(true);
   FaceFix f(m, 1, mode != 0); ConstantCoefficient q(sx::real("q", 0.5, 2)); LinVec ud("ud", f.d, 0.5, 1);
   const IntegrationRule &ir = IntRules.Get(f.T->GetGeometryType(), 2); DGLaxFriedrichsFluxIntegrator I1(q, mode == 2 ? &ud : nullptr, &ir);
   // what the same integrator object did before must not matter
   if (before >= 0) { FaceFix g(m, 1, before == 1); Vector z(g.nv()), o; z = 0.5; DenseMatrix jj; I1.AssembleFaceVector(*g.f1, *g.f2, *g.T, z, o); if (before == 0) I1.AssembleFaceGrad(*g.f1, *g.f2, *g.T, z, jj); }
   int qp = sx::choose("qp", 0, ir.GetNPoints() - 1); double qw = sx::real("qw", 0.125, 2); const IntegrationPoint &ip = ir.IntPoint(qp);
   DenseMatrix B = basis(f.nv(), nb, "B", 0); for (int i = 0; i < f.d * f.n1; i++) for (int j = 0; j < nb; j++) B(i, j) *= j ? 1.5 : 0.75;
   EQPSample s(SampleInfo({0, qp, qw})); sampleFace(s, f, ip, B);
   Vector x = posState(nb, "x"), X = lift(B, x), full, y = vec(nb, "y0"), yr(y); DenseMatrix J = mat(nb, nb, "J0"), Jr(J), Jf;
   awayFace(*f.T); I1.AddAssembleVector_Fast(s, *f.T, x, y); awayFace(*f.T); I1.AddAssembleGrad_Fast(s, *f.T, x, J);
   DGLaxFriedrichsFluxIntegrator I2(q, mode == 2 ? &ud : nullptr, &ir);
   I2.AssembleQuadratureVector(*f.f1, *f.f2, *f.T, ip, qw, X, full); I2.AssembleQuadratureGrad(*f.f1, *f.f2, *f.T, ip, qw, X, Jf);
   for (int a = 0; a < nb; a++) { for (int i = 0; i < f.nv(); i++) yr[a] += B(i, a) * full[i]; for (int b = 0; b < nb; b++) for (int i = 0; i < f.nv(); i++) for (int j = 0; j < f.nv(); j++) Jr(a, b) += B(i, a) * Jf(i, j) * B(j, b); }
   eqv(y, yr, "fast face vector adds the projected pointwise vector"); eqm(J, Jr, "fast face Jacobian adds the projected pointwise Jacobian");
   DenseMatrix Jz(nb); Jz = 0.0; awayFace(*f.T); I1.AddAssembleGrad_Fast(s, *f.T, x, Jz); awayFace(*f.T);
   sx::jacobian("fast face Jacobian is the derivative of the fast vector", sv(x), [&](std::vector<double> &z) { Vector a(z.data(), z.size()), o(nb); o = 0.0; I1.AddAssembleVector_Fast(s, *f.T, a, o); return sv(o); }, [&](int i, int j) { return Jz(i, j); });
}
SX_CASE(lf_fast_interior_fresh) { lfFast(baseMesh(1, 1, 1), 0, -1, 2); }
SX_CASE(lf_fast_interior_after_boundary) { lfFast(baseMesh(1, 1, 1), 0, 1, 2); }
SX_CASE(lf_fast_interior_quad) { lfFast(baseMesh(0, 2, 1), 0, 0, 2); }
SX_CASE(lf_fast_outflow) { lfFast(baseMesh(1, 1, 1), 1, 0, 2); }
SX_CASE(lf_fast_dirichlet_fresh) { lfFast(baseMesh(1, 1, 1), 2, -1, 2); }
SX_CASE(lf_fast_dirichlet_after_interior) { lfFast(baseMesh(1, 1, 1), 2, 0, 2); }
// ---- Lax-Friedrichs across a subdomain interface
static void itfFast(const Mesh &m, std::vector<int> part, int o2 = 1)
{
   sx_nonzero_denominators(true);
   Itf f(m, part, o2); const int dim = m.Dimension(), n1 = f.e1->GetDof() * dim, n2 = f.e2->GetDof() * dim; ConstantCoefficient q(sx::real("q", 0.5, 2));
   const IntegrationRule &ir = IntRules.Get(f.t1->GetGeometryType(), 2); DGLaxFriedrichsFluxIntegrator I1(q, nullptr, &ir);
   // pieces
   Vector X1 = posState(n1, "u"), X2 = posState(n2, "v"), a1, a2, s1(n1), s2(n2), p1, p2; s1 = 0.0; s2 = 0.0; I1.AssembleInterfaceVector(*f.e1, *f.e2, *f.t1, *f.t2, X1, X2, a1, a2);
   Array2D<DenseMatrix *> M(2, 2), P(2, 2); DenseMatrix Sx[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { M(i, j) = new DenseMatrix; P(i, j) = new DenseMatrix; Sx[i][j].SetSize(i ? n2 : n1, j ? n2 : n1); Sx[i][j] = 0.0; }
   I1.AssembleInterfaceGrad(*f.e1, *f.e2, *f.t1, *f.t2, X1, X2, M);
   for (int i = 0; i < ir.GetNPoints(); i++) { const IntegrationPoint &ip = ir.IntPoint(i); awayFace(*f.t1); awayFace(*f.t2); I1.AssembleQuadratureVector(*f.e1, *f.e2, *f.t1, *f.t2, ip, ip.weight, X1, X2, p1, p2); s1 += p1; s2 += p2; awayFace(*f.t1); awayFace(*f.t2); I1.AssembleQuadratureGrad(*f.e1, *f.e2, *f.t1, *f.t2, ip, ip.weight, X1, X2, P); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) Sx[a][b] += *P(a, b); }
   eqv(s1, a1, "interface pieces add up, side 1"); eqv(s2, a2, "interface pieces add up, side 2"); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) eqm(Sx[a][b], *M(a, b), "interface Jacobian pieces add up" + I(a, b));
}
static void itfFast2(const Mesh &m, std::vector<int> part, int nb1, int nb2, int o2 = 1)
{
   sx_nonzero_denominators(true);
   Itf f(m, part, o2); const int dim = m.Dimension(), nd1 = f.e1->GetDof(), nd2 = f.e2->GetDof(), n1 = nd1 * dim, n2 = nd2 * dim; ConstantCoefficient q(sx::real("q", 0.5, 2));
   const IntegrationRule &ir = IntRules.Get(f.t1->GetGeometryType(), 2); DGLaxFriedrichsFluxIntegrator I1(q, nullptr, &ir);
   int qp = sx::choose("qp", 0, ir.GetNPoints() - 1); double qw = sx::real("qw", 0.125, 2); const IntegrationPoint &ip = ir.IntPoint(qp);
   DenseMatrix B1 = basis(n1, nb1, "B", 0), B2 = basis(n2, nb2, "C", 0); B2 *= 1.25; for (int i = 0; i < n2; i++) B2(i, 0) = 0.5 + 0.0625 * i;
   EQPSample s(SampleInfo({0, qp, qw})); f.t1->SetAllIntPoints(&ip); f.t2->SetAllIntPoints(&ip);
   Vector h1(nd1), h2(nd2); f.e1->CalcShape(f.t1->GetElement1IntPoint(), h1); f.e2->CalcShape(f.t2->GetElement1IntPoint(), h2);
   s.shape1 = new DenseMatrix(dim, nb1); s.shape2 = new DenseMatrix(dim, nb2);
   for (int c = 0; c < dim; c++) { for (int k = 0; k < nb1; k++) { double v = 0; for (int i = 0; i < nd1; i++) v += h1[i] * B1(c * nd1 + i, k); (*s.shape1)(c, k) = v; } for (int k = 0; k < nb2; k++) { double v = 0; for (int i = 0; i < nd2; i++) v += h2[i] * B2(c * nd2 + i, k); (*s.shape2)(c, k) = v; } }
   Vector x1 = posState(nb1, "x"), x2 = posState(nb2, "z"), X1 = lift(B1, x1), X2 = lift(B2, x2), y1 = vec(nb1, "y1"), y2 = vec(nb2, "y2"), r1(y1), r2(y2), q1, q2;
   Array2D<SparseMatrix *> J(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) J(i, j) = new SparseMatrix(i ? nb2 : nb1, j ? nb2 : nb1);
   awayFace(*f.t1); awayFace(*f.t2); I1.AddAssembleVector_Fast(s, *f.t1, *f.t2, x1, x2, y1, y2); awayFace(*f.t1); awayFace(*f.t2); I1.AddAssembleGrad_Fast(s, *f.t1, *f.t2, x1, x2, J);
   I1.AssembleQuadratureVector(*f.e1, *f.e2, *f.t1, *f.t2, ip, qw, X1, X2, q1, q2);
   Array2D<DenseMatrix *> P(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) P(i, j) = new DenseMatrix; I1.AssembleQuadratureGrad(*f.e1, *f.e2, *f.t1, *f.t2, ip, qw, X1, X2, P);
   for (int a = 0; a < nb1; a++) for (int i = 0; i < n1; i++) r1[a] += B1(i, a) * q1[i]; for (int a = 0; a < nb2; a++) for (int i = 0; i < n2; i++) r2[a] += B2(i, a) * q2[i];
   eqv(y1, r1, "fast interface vector, side 1"); eqv(y2, r2, "fast interface vector, side 2");
   for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { J(a, b)->Finalize(0); eqs(*J(a, b), refRtAP(a ? B2 : B1, *P(a, b), b ? B2 : B1), "fast interface Jacobian block" + I(a, b)); }
}
SX_CASE(itf_pieces_quad) { itfFast(baseMesh(0, 2, 1), {1, 2}); }
SX_CASE(itf_pieces_mixed) { itfFast(baseMesh(1, 1, 1), {1, 2}, 2); }
SX_CASE(itf_pieces_tri_rev) { itfFast(baseMesh(1, 1, 1), {2, 1}); }
SX_CASE(itf_fast_quad) { itfFast2(baseMesh(0, 2, 1), {1, 2}, 2, 1); }
SX_CASE(itf_fast_tri_rev) { itfFast2(baseMesh(1, 1, 1), {2, 1}, 1, 2); }
SX_CASE(itf_fast_mixed) { itfFast2(baseMesh(1, 1, 1), {1, 2}, 2, 2, 2); }
