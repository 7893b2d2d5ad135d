// Reduced nonlinear forms: sampled residual and Jacobian on a basis, and the training system that picks the samples
#include "nl.hpp"
#include "linalg_utils.hpp"
#include "rom_nonlinearform.hpp"
#include "input_parser.hpp"
static void cfg(const S &y = "{}") { config.dict_ = YAML::Load(y); }
struct PosCoef : public Coefficient { double a, b; PosCoef() : a(sx::real("Qa", 0.5, 2)), b(0.125) {} double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { double xd[3]; Vector x(xd, 3); T.Transform(ip, x); return a + b * xd[0]; } };
static DenseMatrix basisOf(int n, int k, int nsym, bool pos = false)
{
   DenseMatrix B(n, k);
   for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) B(i, j) = 0.25 + 0.125 * ((3 * i + 5 * j) % 7) - (pos || (i + j) % 3 ? 0.0 : 0.75);
   for (int s = 0; s < nsym; s++) { int i = (5 * s + 1) % n, j = s % k; B(i, j) = sx::real("B" + I(i, j), pos ? 0.25 : -1, 1); }
   return B;
}
static Vector lift(const DenseMatrix &B, const Vector &x) { Vector y(B.Height()); for (int i = 0; i < B.Height(); i++) { double s = 0; for (int j = 0; j < B.Width(); j++) s += B(i, j) * x[j]; y[i] = s; } return y; }
enum Kind { DOM, FACE, BDR };
struct Term { Kind kind; std::function<HyperReductionIntegrator *()> make; const IntegrationRule *ir; std::vector<int> marker; Array<SampleInfo> s; };
struct Form
{
   Mesh mesh; FiniteElementCollection *fec; FiniteElementSpace fes; std::vector<Term> t; ROMNonlinearForm *f = nullptr; int nb;
   DenseMatrix B;   // what the form is told, restricted to this space
   Form(const Mesh &m, FiniteElementCollection *c, int nb_, int nsym, bool pos, int offset = 0) : mesh(m), fec(c), fes(&mesh, fec, m.Dimension()), nb(nb_)
   {
      f = new ROMNonlinearForm(nb, &fes);
      const int n = fes.GetTrueVSize();
      DenseMatrix big = basisOf(n + 2 * offset, nb, nsym, pos);
      B.SetSize(n, nb);
      for (int i = 0; i < n; i++) for (int j = 0; j < nb; j++) B(i, j) = big(i + offset, j);
      f->SetBasis(big, offset);
      big = -3.0;   // the form keeps its own copy
   }
   ~Form() { delete f; delete fec; }
   void add(Kind k, std::function<HyperReductionIntegrator *()> mk, const IntegrationRule &ir, std::vector<int> marker = {}, int markers = -1)
   {
      Term x{k, mk, &ir, marker, Array<SampleInfo>()};
      HyperReductionIntegrator *h = mk(); h->SetIntRule(&ir);
      if (k == DOM) f->AddDomainIntegrator(h); else if (k == FACE) f->AddInteriorFaceIntegrator(h);
      else if (marker.empty()) f->AddBdrFaceIntegrator(h);
      else { Array<int> a(marker.size()); for (size_t i = 0; i < marker.size(); i++) a[i] = marker[i]; f->AddBdrFaceIntegrator(h, a); a = -1; }
      t.push_back(x);
   }
   int kth(int i) { int k = 0; for (int j = 0; j < i; j++) k += t[j].kind == t[i].kind; return k; }
   void sample(int i, const Array<SampleInfo> &s)
   {
      t[i].s = s; Array<SampleInfo> c(s);
      if (t[i].kind == DOM) f->UpdateDomainIntegratorSampling(kth(i), c); else if (t[i].kind == FACE) f->UpdateInteriorFaceIntegratorSampling(kth(i), c); else f->UpdateBdrFaceIntegratorSampling(kth(i), c);
      for (int k = 0; k < c.Size(); k++) { c[k].qw = -7.0; c[k].qp = 0; }
   }
   EQPElement *eqp(int i) { return f->GetEQPForIntegrator(t[i].kind == DOM ? IntegratorType::DOMAIN : t[i].kind == FACE ? IntegratorType::INTERIORFACE : IntegratorType::BDRFACE, kth(i)); }
   // one point's contribution of a term at a full state: vdofs, vector (and matrix)
   void point(int i, HyperReductionIntegrator *h, int el, int qp, double w, const Vector &u, Array<int> &vd, Vector &y, DenseMatrix *J = nullptr)
   {
      const IntegrationPoint &ip = t[i].ir->IntPoint(qp); Vector ue;
      if (t[i].kind == DOM)
      {
         fes.GetElementVDofs(el, vd); u.GetSubVector(vd, ue); ElementTransformation *T = fes.GetElementTransformation(el);
         h->AssembleQuadratureVector(*fes.GetFE(el), *T, ip, w, ue, y); if (J) h->AssembleQuadratureGrad(*fes.GetFE(el), *T, ip, w, ue, *J);
         return;
      }
      FaceElementTransformations *T = t[i].kind == FACE ? mesh.GetInteriorFaceTransformations(el) : mesh.GetBdrFaceTransformations(el);
      fes.GetElementVDofs(T->Elem1No, vd); if (t[i].kind == FACE) { Array<int> b; fes.GetElementVDofs(T->Elem2No, b); vd.Append(b); }
      u.GetSubVector(vd, ue); const FiniteElement *e1 = fes.GetFE(T->Elem1No), *e2 = t[i].kind == FACE ? fes.GetFE(T->Elem2No) : e1;
      h->AssembleQuadratureVector(*e1, *e2, *T, ip, w, ue, y); if (J) h->AssembleQuadratureGrad(*e1, *e2, *T, ip, w, ue, *J);
   }
   void expected(const Vector &x, Vector &y, DenseMatrix &J)
   {
      Vector u = lift(B, x); y.SetSize(nb); y = 0.0; J.SetSize(nb); J = 0.0;
      for (size_t i = 0; i < t.size(); i++) for (int s = 0; s < t[i].s.Size(); s++)
      {
         std::unique_ptr<HyperReductionIntegrator> h(t[i].make()); h->SetIntRule(t[i].ir);
         Array<int> vd; Vector p; DenseMatrix P; point(i, h.get(), t[i].s[s].el, t[i].s[s].qp, t[i].s[s].qw, u, vd, p, &P);
         for (int a = 0; a < nb; a++) { for (int k = 0; k < vd.Size(); k++) y[a] += B(vd[k], a) * p[k]; for (int b = 0; b < nb; b++) for (int k = 0; k < vd.Size(); k++) { double z = 0; for (int l = 0; l < vd.Size(); l++) z += P(k, l) * B(vd[l], b); J(a, b) += B(vd[k], a) * z; } }
      }
   }
   void evaluate(const Vector &x, const S &l)
   {
      Vector y(nb), r; fill(y, "old"); DenseMatrix J; expected(x, r, J);
      f->Mult(x, y); eqv(y, r, l + ": residual is the weighted sum of projected point contributions");
      DenseMatrix *G = dynamic_cast<DenseMatrix *>(&f->GetGradient(x)); sx::check(G != nullptr, "dense Jacobian");
      eqm(*G, J, l + ": Jacobian is the weighted sum of projected point Jacobians");
      DenseMatrix G0(*G);
      f->Mult(x, y); eqv(y, r, l + ": evaluated again");
      eqm(*dynamic_cast<DenseMatrix *>(&f->GetGradient(x)), G0, l + ": differentiated again");
   }
   void derivative(const Vector &x, const S &l)
   {
      DenseMatrix G(*dynamic_cast<DenseMatrix *>(&f->GetGradient(x)));
      sx::jacobian(l + ": Jacobian is the derivative of the residual", sv(x), [&](std::vector<double> &z) { Vector a(z.data(), z.size()), o(nb); f->Mult(a, o); return sv(o); }, [&](int i, int j) { return G(i, j); });
   }
   void all(const Vector &x, const Vector &before)
   {
      sx::check(!f->PrecomputeMode(), "evaluated point by point unless asked otherwise");
      { Vector y(nb); f->Mult(before, y); f->GetGradient(before); }
      evaluate(x, "pointwise"); derivative(x, "pointwise");
      f->PrecomputeCoefficients(); f->SetPrecomputeMode(true);
      { Vector y(nb); f->Mult(before, y); f->GetGradient(before); }
      evaluate(x, "precomputed"); derivative(x, "precomputed");
      f->SetPrecomputeMode(false); evaluate(x, "pointwise again");
   }
};
static Array<SampleInfo> pick(Form &F, int i, std::vector<std::pair<int, int>> p, int nw = 2)
{ Array<SampleInfo> s; for (size_t k = 0; k < p.size(); k++) s.Append(SampleInfo({p[k].first, p[k].second, (int)k < nw ? sx::real("w" + I(i, k), 0, 2) : 0.375 + 0.25 * k})); return s; }
static const IntegrationRule &rule(FiniteElementSpace &f, int o) { return IntRules.Get(f.GetFE(0)->GetGeomType(), o); }
static const IntegrationRule &frule(Mesh &m, int o) { return IntRules.Get(m.Dimension() == 3 ? (m.GetElementGeometry(0) == Geometry::TETRAHEDRON ? Geometry::TRIANGLE : Geometry::SQUARE) : Geometry::SEGMENT, o); }
static Vector pos(int n, const S &nm) { Vector x(n); for (int i = 0; i < n; i++) x[i] = sx::real(nm + I(i), 0.5, 1); return x; }
static Vector half(int n) { Vector x(n); for (int i = 0; i < n; i++) x[i] = 0.5 + 0.0625 * i; return x; }
// ---- domain terms; consecutive samples of one element, a return to an earlier element, two terms, an empty term
static void domain(const Mesh &m, FiniteElementCollection *fec, int nb, int nsym, int off = 0)
{
   cfg(); Form F(m, fec, nb, nsym, false, off); PosCoef q; LinVec v("v", m.Dimension());
   auto conv = [&]() -> HyperReductionIntegrator * { return new VectorConvectionTrilinearFormIntegrator(q); };
   auto flux = [&]() -> HyperReductionIntegrator * { return new IncompressibleInviscidFluxNLFIntegrator(q); };
   auto given = [&]() -> HyperReductionIntegrator * { return new VectorConvectionTrilinearFormIntegrator(q, &v); };
   F.add(DOM, conv, rule(F.fes, 3)); F.add(DOM, flux, rule(F.fes, 2)); F.add(DOM, given, rule(F.fes, 1)); F.add(DOM, conv, rule(F.fes, 2));
   const int e = F.mesh.GetNE() - 1;
   F.sample(0, pick(F, 0, {{0, 1}})); F.sample(0, pick(F, 0, {{e, 2}, {0, 0}, {0, 3}, {e, 2}})); F.sample(1, pick(F, 1, {{0, 1}, {e, 0}}, 1)); F.sample(2, pick(F, 2, {{e, 0}}, 1)); F.sample(3, Array<SampleInfo>());
   F.all(vec(nb, "x"), half(nb));
}
SX_CASE(domain_tri) { domain(baseMesh(1, 1, 1), new L2_FECollection(1, 2, BasisType::GaussLobatto), 2, 2); }
SX_CASE(domain_continuous) { domain(baseMesh(0, 2, 1), new H1_FECollection(1, 2), 2, 2); }
SX_CASE(domain_offset) { domain(baseMesh(1, 1, 1), new L2_FECollection(1, 2, BasisType::GaussLobatto), 3, 1, 5); }
SX_CASE_THOROUGH(domain_hex) { domain(baseMesh(2, 2, 1, 1), new H1_FECollection(1, 3), 2, 2); }
// ---- face terms
static void faces(const Mesh &m, int nb, bool itf, bool bdr)
{
   sx_nonzero_denominators(true); cfg(); Form F(m, new L2_FECollection(1, m.Dimension(), BasisType::GaussLobatto), nb, 0, true); ConstantCoefficient q(sx::real("q", 0.5, 2)); VectorConstantCoefficient ud(half(m.Dimension()));
   auto lf = [&]() -> HyperReductionIntegrator * { return new DGLaxFriedrichsFluxIntegrator(q); };
   auto dir = [&]() -> HyperReductionIntegrator * { return new DGLaxFriedrichsFluxIntegrator(q, &ud); };
   const IntegrationRule &ir = frule(F.mesh, 2);
   std::vector<int> in; for (int f = 0; f < F.mesh.GetNumFaces(); f++) if (F.mesh.GetInteriorFaceTransformations(f)) in.push_back(f);
   if (itf) { F.add(FACE, lf, ir); F.sample(F.t.size() - 1, pick(F, 0, {{in[0], 1}, {in.back(), 0}, {in[0], 0}})); }
   if (bdr)
   {
      const int na = F.mesh.bdr_attributes.Max(); std::vector<int> mk(na, 0); std::vector<int> b1, b2;
      for (int b = 0; b < F.mesh.GetNBE(); b++) { int a = F.mesh.GetBdrAttribute(b); if (a == 1 || a == 3) { mk[a - 1] = 1; b1.push_back(b); } b2.push_back(b); }
      F.add(BDR, dir, ir, mk); F.sample(F.t.size() - 1, pick(F, 1, {{b1[0], 0}, {b1[1], 1}}, 1));
      F.add(BDR, lf, ir); F.sample(F.t.size() - 1, pick(F, 2, {{b2.back(), 1}, {b2[0], 0}}, 1));
   }
   F.all(pos(nb, "x"), half(nb));
}
SX_CASE(faces_interior_tri) { faces(baseMesh(1, 1, 1), 2, true, false); }
SX_CASE(faces_interior_quads) { faces(baseMesh(0, 3, 1), 2, true, false); }
SX_CASE(faces_boundary) { faces(baseMesh(1, 1, 1), 2, false, true); }
SX_CASE(faces_all) { faces(baseMesh(0, 2, 1), 1, true, true); }
// sampling a boundary element outside the term's boundary, or a face with one element, is refused
SX_CASE(ill_sampling)
{
   cfg(); Form F(baseMesh(1, 1, 1), new L2_FECollection(1, 2, BasisType::GaussLobatto), 1, 0, true); ConstantCoefficient q(1.0);
   auto lf = [&]() -> HyperReductionIntegrator * { return new DGLaxFriedrichsFluxIntegrator(q); };
   int a = sx::choose("attr", 1, 4), b = sx::choose("be", 0, F.mesh.GetNBE() - 1); std::vector<int> mk(4, 0); mk[a - 1] = 1; bool in = F.mesh.GetBdrAttribute(b) == a; Vector x(1), y(1); x = 1.0;
   F.add(BDR, lf, frule(F.mesh, 2), mk); F.sample(0, pick(F, 0, {{b, 0}}, 0));
   sx::check(sx::rejects([&]() { F.f->Mult(x, y); }) == !in, "residual on a foreign boundary refused"); sx::check(sx::rejects([&]() { F.f->GetGradient(x); }) == !in, "Jacobian on a foreign boundary refused"); sx::check(sx::rejects([&]() { F.f->PrecomputeCoefficients(); }) == !in, "precomputation on a foreign boundary refused");
   Form G(baseMesh(1, 1, 1), new L2_FECollection(1, 2, BasisType::GaussLobatto), 1, 0, true); int f = sx::choose("face", 0, G.mesh.GetNumFaces() - 1); bool inner = G.mesh.GetInteriorFaceTransformations(f) != nullptr;
   G.add(FACE, lf, frule(G.mesh, 2)); G.sample(0, pick(G, 0, {{f, 0}}, 0));
   sx::check(sx::rejects([&]() { G.f->Mult(x, y); }) == !inner, "residual on a boundary face refused"); sx::check(sx::rejects([&]() { G.f->GetGradient(x); }) == !inner, "Jacobian on a boundary face refused"); sx::check(sx::rejects([&]() { G.f->PrecomputeCoefficients(); }) == !inner, "precomputation on a boundary face refused");
}
// ---- samples of a component shared by other forms (not owned), saved and loaded
SX_CASE(shared_and_stored)
{
   cfg(); Mesh m = baseMesh(1, 1, 1); PosCoef q; auto mk = [&]() -> HyperReductionIntegrator * { return new VectorConvectionTrilinearFormIntegrator(q); };
   Form F(m, new L2_FECollection(1, 2, BasisType::GaussLobatto), 2, 1, false); F.add(DOM, mk, rule(F.fes, 3)); F.add(DOM, mk, rule(F.fes, 2)); F.sample(0, pick(F, 0, {{1, 2}, {0, 0}, {1, 3}}, 3)); F.sample(1, pick(F, 1, {{0, 1}}, 1));
   Vector x = vec(2, "x"), y(2), z(2); DenseMatrix J; F.expected(x, y, J);
   hid_t file = H5Fcreate("s.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); F.f->SaveEQPForIntegrator(IntegratorType::DOMAIN, 0, file, "a"); F.f->SaveEQPForIntegrator(IntegratorType::DOMAIN, 1, file, "b"); H5Fclose(file);
   Form G(m, new L2_FECollection(1, 2, BasisType::GaussLobatto), 2, 1, false); G.add(DOM, mk, rule(G.fes, 3)); G.add(DOM, mk, rule(G.fes, 2)); G.sample(1, pick(G, 7, {{1, 0}}, 1));
   file = H5Fopen("s.h5", H5F_ACC_RDONLY, H5P_DEFAULT); G.f->LoadEQPForIntegrator(IntegratorType::DOMAIN, 0, file, "a"); G.f->LoadEQPForIntegrator(IntegratorType::DOMAIN, 1, file, "b"); H5Fclose(file);
   G.f->Mult(x, z); eqv(z, y, "loaded samples give the saved form's residual");
   // a subdomain's form uses the component's samples
   ROMNonlinearForm H(2, &G.fes, false); H.AddDomainIntegrator(mk()); H.AddDomainIntegrator(mk()); (*H.GetDNFI())[0]->SetIntRule(&rule(G.fes, 3)); (*H.GetDNFI())[1]->SetIntRule(&rule(G.fes, 2)); H.SetBasis(G.B);
   H.SetDomainEQPElems(0, G.eqp(0)); H.SetDomainEQPElems(1, G.eqp(1)); H.Mult(x, z); eqv(z, y, "shared samples give the component's residual");
   G.f->PrecomputeCoefficients(); H.SetPrecomputeMode(true); H.Mult(x, z); eqv(z, y, "shared precomputed samples give the component's residual"); eqm(*dynamic_cast<DenseMatrix *>(&H.GetGradient(x)), J, "and its Jacobian");
   sx::check(sx::rejects([&]() { H.UpdateDomainIntegratorSampling(0, F.t[0].s); }), "a subdomain's form does not change the component's samples"); sx::check(sx::rejects([&]() { G.f->SetDomainEQPElems(0, nullptr); }), "a component's form keeps its own samples");
}
// ---- training: the system, its exact right-hand side, the tolerance band and the samples taken from the solution
static void training(const Mesh &m, std::vector<Kind> kinds, int nb, int nsnap, int extra, int nsym)
{
   sx_nonzero_denominators(true); bool pos0 = false; for (Kind k : kinds) pos0 = pos0 || k != DOM;
   int crit = sx::choose("criterion", 0, 1); cfg(crit ? "{model_reduction: {eqp: {criterion: linf}}}" : "{model_reduction: {eqp: {criterion: l2}}}");
   Form F(m, new L2_FECollection(1, m.Dimension(), BasisType::GaussLobatto), nb, 0, pos0); PosCoef qc; ConstantCoefficient q(sx::real("q", 0.5, 2)); VectorConstantCoefficient ud(half(m.Dimension()));
   auto conv = [&]() -> HyperReductionIntegrator * { return new VectorConvectionTrilinearFormIntegrator(qc); };
   auto lf = [&]() -> HyperReductionIntegrator * { return new DGLaxFriedrichsFluxIntegrator(q); };
   auto dir = [&]() -> HyperReductionIntegrator * { return new DGLaxFriedrichsFluxIntegrator(q, &ud); };
   std::vector<int> mk(F.mesh.bdr_attributes.Max(), 0); int nbd = 0;
   for (Kind k : kinds) if (k == DOM) F.add(DOM, conv, rule(F.fes, 2)); else if (k == FACE) F.add(FACE, lf, frule(F.mesh, 2)); else if (nbd++ == 0) { mk[0] = mk[2] = 1; F.add(BDR, dir, frule(F.mesh, 2), mk); } else F.add(BDR, lf, frule(F.mesh, 1));
   const int n = F.fes.GetTrueVSize(); CAROM::Matrix snap(n + extra, nsnap, true);
   for (int i = 0; i < n + extra; i++) for (int j = 0; j < nsnap; j++) snap(i, j) = pos0 ? 0.5 + 0.0625 * ((3 * i + 2 * j) % 7) : -0.5 + 0.125 * ((5 * i + 3 * j) % 8);
   for (int s = 0; s < nsym; s++) snap((4 * s + 1) % n, s % nsnap) = sx::real("snap" + I(s), 0.5, 1);
   const double tol = 0.0625; size_t call = 0; std::vector<CAROM::Vector> sol; std::vector<std::vector<int>> where;
   CAROM::model::norm() = [](const CAROM::Vector &) { return 1.0; };   // reported only
   CAROM::model::nnls() = [&](const CAROM::Matrix &G, const CAROM::Vector &lb, const CAROM::Vector &ub, CAROM::Vector &x)
   {
      sx::check(call < F.t.size(), "one system per term"); if (call >= F.t.size()) return;
      sx::check(CAROM::model::criterion() == (crit ? CAROM::NNLS_termination::LINF : CAROM::NNLS_termination::L2), "the requested criterion");
      Term &t = F.t[call]; const int nq = t.ir->GetNPoints(); std::vector<int> el;
      if (t.kind == DOM) for (int e = 0; e < F.mesh.GetNE(); e++) el.push_back(e);
      else if (t.kind == FACE) { for (int f = 0; f < F.mesh.GetNumFaces(); f++) if (F.mesh.GetInteriorFaceTransformations(f)) el.push_back(f); }
      else for (int b = 0; b < F.mesh.GetNBE(); b++) if (t.marker.empty() || t.marker[F.mesh.GetBdrAttribute(b) - 1]) el.push_back(b);
      sx::check(G.numRows() == (int)el.size() * nq && G.numColumns() == nb * nsnap, "one unknown per quadrature point, one equation per snapshot and basis vector");
      std::unique_ptr<HyperReductionIntegrator> h(t.make()); h->SetIntRule(t.ir); Vector u(n);
      for (int s = 0; s < nsnap; s++)
      {
         for (int i = 0; i < n; i++) u[i] = snap(i, s);
         std::vector<double> rhs(nb, 0.0);
         for (size_t e = 0; e < el.size(); e++) for (int k = 0; k < nq; k++)
         {
            Array<int> vd; Vector p; F.point(call, h.get(), el[e], k, 1.0, u, vd, p);
            for (int j = 0; j < nb; j++) { double g = 0; for (int i = 0; i < vd.Size(); i++) g += F.B(vd[i], j) * p[i]; sx::eq(G(e * nq + k, j + s * nb), g, "training matrix" + I((int)call) + I(e * nq + k, j + s * nb)); rhs[j] += t.ir->IntPoint(k).weight * g; }
         }
         for (int j = 0; j < nb; j++) { sx::eq(lb(j + s * nb) + ub(j + s * nb), 2.0 * rhs[j], "the band is centred at the exact value"); if (nsym) continue; double d = tol * fabs(rhs[j]); sx::eq(lb(j + s * nb), rhs[j] - d, "lower bound"); sx::eq(ub(j + s * nb), rhs[j] + d, "upper bound"); }
      }
      // some solution: zeros, noise below the sampling threshold, and weights
      for (int i = 0; i < x.dim(); i++) x(i) = i % 4 == 0 ? 0.0 : i % 4 == 2 ? 1e-13 : i < 4 ? sx::real("sol" + I((int)call) + I(i), 0.125, 2) : 0.25 + 0.125 * i;
      sol.push_back(x); where.push_back(el); call++;
   };
   CAROM::Matrix s2(snap);
   F.f->TrainEQP(snap, tol); sx::check(call == F.t.size(), "every term trained");
   for (size_t i = 0; i < F.t.size(); i++)
   {
      EQPElement *e = F.eqp(i); std::vector<int> nz; for (int k = 0; k < sol[i].dim(); k++) if (k % 4 == 1 || k % 4 == 3) nz.push_back(k);
      sx::check(e && e->Size() == (int)nz.size(), "one sample per non-negligible weight"); if (!e || e->Size() != (int)nz.size()) continue;
      const int nq = F.t[i].ir->GetNPoints();
      for (size_t k = 0; k < nz.size(); k++) { SampleInfo &s = e->GetSample(k)->info; sx::check(s.el == where[i][nz[k] / nq] && s.qp == nz[k] % nq, "sample point " + I(i, k)); sx::eq(s.qw, sol[i](nz[k]), "sample weight " + I(i, k)); }
   }
   for (int i = 0; i < n; i++) for (int j = 0; j < nsnap; j++) sx::eq(snap(i, j), s2(i, j), "snapshots unchanged");
   CAROM::model::nnls() = nullptr; CAROM::model::norm() = nullptr;
}
SX_CASE(training_domain) { training(baseMesh(1, 1, 1), {DOM}, 2, 2, 0, 0); }
SX_CASE(training_states) { training(baseMesh(1, 1, 1), {DOM}, 1, 2, 0, 3); }
SX_CASE(training_longer_snapshots) { training(baseMesh(1, 1, 1), {DOM}, 1, 3, 4, 0); }
SX_CASE(training_interior) { training(baseMesh(0, 3, 1), {FACE}, 2, 2, 0, 0); }
SX_CASE(training_boundary) { training(baseMesh(1, 1, 1), {BDR, BDR}, 2, 1, 0, 0); }
SX_CASE(training_all) { training(baseMesh(0, 2, 1), {DOM, DOM, FACE, BDR}, 1, 2, 0, 0); }
// all quadrature points with their weights: the projected full-order term
static void full(const Mesh &m, FiniteElementCollection *fec, int nb)
{
   cfg(); Form F(m, fec, nb, 2, false); PosCoef q; auto mk = [&]() -> HyperReductionIntegrator * { return new IncompressibleInviscidFluxNLFIntegrator(q); }; const IntegrationRule &ir = rule(F.fes, 2); F.add(DOM, mk, ir);
   Array<SampleInfo> s; for (int e = 0; e < F.mesh.GetNE(); e++) for (int k = 0; k < ir.GetNPoints(); k++) s.Append(SampleInfo({e, k, ir.IntPoint(k).weight})); F.sample(0, s);
   Vector x = vec(nb, "x"), u = lift(F.B, x), y(nb), r(nb), N(F.fes.GetVSize()); N = 0.0; std::unique_ptr<HyperReductionIntegrator> h(mk()); h->SetIntRule(&ir);
   for (int e = 0; e < F.mesh.GetNE(); e++) { Array<int> vd; Vector ue, p; F.fes.GetElementVDofs(e, vd); u.GetSubVector(vd, ue); h->AssembleElementVector(*F.fes.GetFE(e), *F.fes.GetElementTransformation(e), ue, p); N.AddElementVector(vd, p); }
   r = 0.0; for (int a = 0; a < nb; a++) for (int i = 0; i < N.Size(); i++) r[a] += F.B(i, a) * N[i];
   F.f->Mult(x, y); eqv(y, r, "all points: projection of the full term");
}
SX_CASE(full_sampling) { full(baseMesh(1, 1, 1), new L2_FECollection(1, 2, BasisType::GaussLobatto), 2); }
SX_CASE(full_sampling_continuous) { full(baseMesh(0, 2, 1), new H1_FECollection(1, 2), 2); }
// where the sample points lie (the stack holds other values when the coordinates are collected)
static __attribute__((noinline)) void dirty() { volatile double a[20000]; for (int i = 0; i < 20000; i++) a[i] = 7.0; }
SX_CASE(sample_coordinates)
{
   cfg(); int kind = sx::choose("mesh", 0, 2); Mesh m = baseMesh(kind, 2, 1); Form F(m, new L2_FECollection(1, m.Dimension(), BasisType::GaussLobatto), 1, 0, false); PosCoef q;
   auto mk = [&]() -> HyperReductionIntegrator * { return new VectorConvectionTrilinearFormIntegrator(q); }; const IntegrationRule &ir = rule(F.fes, 2); F.add(DOM, mk, ir); F.sample(0, pick(F, 0, {{1, 2}, {0, 1}, {1, 0}}, 0));
   hid_t f = H5Fcreate("c.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); dirty(); F.f->SaveDomainEQPCoords(0, f, "pts"); H5Fclose(f);
   f = H5Fopen("c.h5", H5F_ACC_RDONLY, H5P_DEFAULT); hid_t g = H5Gopen2(f, "pts", H5P_DEFAULT); DenseMatrix c; hdf5_utils::ReadDataset(g, "coords", c); H5Gclose(g); H5Fclose(f);
   sx::check(c.Height() == 3 && c.Width() == 3, "one row of three coordinates per sample"); if (c.Height() != 3 || c.Width() != 3) return;
   for (int s = 0; s < 3; s++) { Vector x; F.fes.GetElementTransformation(F.t[0].s[s].el)->Transform(ir.IntPoint(F.t[0].s[s].qp), x); for (int d = 0; d < 3; d++) sx::eq(c(s, d), d < x.Size() ? x[d] : 0.0, "coordinate" + I(s, d)); }
}
