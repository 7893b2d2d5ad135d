// Reduced interface forms: sampled port terms on component bases, shared by every subdomain, and their training
#include "comp.hpp"
#include "interfaceinteg.hpp"
#include "rom_interfaceform.hpp"
static DenseMatrix basisOf(int n, int k, double scale)
{ DenseMatrix B(n, k); for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) B(i, j) = scale * (j == 0 ? 1.0 + 0.0625 * ((3 * i) % 5) : 0.5 - 0.0625 * ((5 * i + 2) % 7)); return B; }
static void cfg(const S &y = "{}") { config.dict_ = YAML::Load(y); }
struct Form
{
   TopologyHandler &th; Array<Mesh *> ms; L2_FECollection fec; Array<FiniteElementSpace *> fes, cfes; std::vector<DenseMatrix> B, told; std::vector<int> nb; ROMInterfaceForm *f = nullptr; int nsub, nc;
   std::vector<Coefficient *> q; std::vector<const IntegrationRule *> ir; std::vector<std::map<int, Array<SampleInfo>>> smp;
   Form(TopologyHandler &t, std::vector<int> nb_, int offset) : th(t), fec(1, t.GetMesh(0)->Dimension(), BasisType::GaussLobatto), nb(nb_)
   {
      TopologyData td; th.ExportInfo(ms, td); nsub = ms.Size(); nc = th.GetNumComponents();
      const int d = ms[0]->Dimension();
      for (int m = 0; m < nsub; m++) fes.Append(new FiniteElementSpace(ms[m], &fec, d)); for (int c = 0; c < nc; c++) cfes.Append(new FiniteElementSpace(th.GetComponentMesh(c), &fec, d));
      f = new ROMInterfaceForm(ms, fes, cfes, &th); told.resize(nc);
      for (int c = 0; c < nc; c++)
      {
         const int n = cfes[c]->GetTrueVSize(), off = offset * (c + 1); told[c] = basisOf(n + 2 * off, nb[c], c == 0 ? 1.0 : 3.0);
         DenseMatrix b(n, nb[c]); for (int i = 0; i < n; i++) for (int j = 0; j < nb[c]; j++) b(i, j) = told[c](i + off, j); B.push_back(b);
         if (off) f->SetBasisAtComponent(c, told[c], off); else f->SetBasisAtComponent(c, told[c]);
      }
      f->UpdateBlockOffsets();
   }
   ~Form() { delete f; for (auto *x : fes) delete x; for (auto *x : cfes) delete x; }
   int off(int m) { int s = 0; for (int k = 0; k < m; k++) s += nb[th.GetMeshType(k)]; return s; }
   int size() { return off(nsub); }
   DenseMatrix &basis(int m) { return B[th.GetMeshType(m)]; }
   InterfaceNonlinearFormIntegrator *make(int i) { auto *x = new DGLaxFriedrichsFluxIntegrator(*q[i]); x->SetIntRule(ir[i]); return x; }
   void add(Coefficient &c, int order) { q.push_back(&c); ir.push_back(&IntRules.Get(ms[0]->Dimension() == 2 ? Geometry::SEGMENT : (ms[0]->GetElementGeometry(0) == Geometry::TETRAHEDRON ? Geometry::TRIANGLE : Geometry::SQUARE), order)); smp.emplace_back(); f->AddInterfaceIntegrator(make(q.size() - 1)); }
   void sample(int i, int rp, std::vector<std::pair<int, int>> p, int nw)
   {
      Array<SampleInfo> s; for (size_t k = 0; k < p.size(); k++) s.Append(SampleInfo({p[k].first, p[k].second, (int)k < nw ? sx::real("w" + I(i, rp, k), 0, 2) : 0.375 + 0.25 * k}));
      smp[i][rp] = s; Array<SampleInfo> c(s); f->UpdateInterFaceIntegratorSampling(i, rp, c); for (int k = 0; k < c.Size(); k++) { c[k].qw = -7.0; c[k].qp = 0; }
   }
   // contributions of one point of a face pair at full states
   static void point(InterfaceNonlinearFormIntegrator *h, TopologyHandler &th, FiniteElementSpace *f1, FiniteElementSpace *f2, InterfaceInfo info, const IntegrationPoint &ip, double w, const Vector &u1, const Vector &u2, Array<int> *vd, Vector *y, Array2D<DenseMatrix *> *J)
   {
      FaceElementTransformations *t1, *t2; Mesh *m1 = f1->GetMesh(), *m2 = f2->GetMesh(); std::unique_ptr<Mesh> copy; if (m1 == m2) { copy.reset(new Mesh(*m1)); m2 = copy.get(); } th.GetInterfaceTransformations(m1, m2, &info, t1, t2);
      f1->GetElementVDofs(t1->Elem1No, vd[0]); f2->GetElementVDofs(t2->Elem1No, vd[1]); Vector x1, x2; u1.GetSubVector(vd[0], x1); u2.GetSubVector(vd[1], x2); const FiniteElement *e1 = f1->GetFE(t1->Elem1No), *e2 = f2->GetFE(t2->Elem1No);
      h->AssembleQuadratureVector(*e1, *e2, *t1, *t2, ip, w, x1, x2, y[0], y[1]); if (J) h->AssembleQuadratureGrad(*e1, *e2, *t1, *t2, ip, w, x1, x2, *J);
   }
   Vector lift(int m, const Vector &x) { DenseMatrix &b = basis(m); Vector u(b.Height()); for (int i = 0; i < u.Size(); i++) { double s = 0; for (int j = 0; j < b.Width(); j++) s += b(i, j) * x[off(m) + j]; u[i] = s; } return u; }
   void expected(const Vector &x, Vector &y, DenseMatrix &J)
   {
      const int n = size(); y.SetSize(n); y = 0.0; J.SetSize(n); J = 0.0; Array2D<DenseMatrix *> P(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) P(i, j) = new DenseMatrix;
      for (size_t i = 0; i < q.size(); i++) for (int p = 0; p < th.GetNumPorts(); p++)
      {
         const PortInfo *pi = th.GetPortInfo(p); const int mm[2] = {pi->Mesh1, pi->Mesh2}; Vector u[2] = {lift(mm[0], x), lift(mm[1], x)}; auto it = smp[i].find(th.GetPortType(p)); if (it == smp[i].end()) continue;
         for (auto &s : it->second)
         {
            std::unique_ptr<InterfaceNonlinearFormIntegrator> h(make(i)); Array<int> vd[2]; Vector r[2]; point(h.get(), th, fes[mm[0]], fes[mm[1]], (*th.GetInterfaceInfos(p))[s.el], ir[i]->IntPoint(s.qp), s.qw, u[0], u[1], vd, r, &P);
            for (int a = 0; a < 2; a++)
            {
               DenseMatrix &Ba = basis(mm[a]);
               for (int c = 0; c < Ba.Width(); c++)
               {
                  for (int k = 0; k < vd[a].Size(); k++) y[off(mm[a]) + c] += Ba(vd[a][k], c) * r[a][k];
                  for (int b = 0; b < 2; b++) { DenseMatrix &Bb = basis(mm[b]); for (int e = 0; e < Bb.Width(); e++) for (int k = 0; k < vd[a].Size(); k++) { double z = 0; for (int l = 0; l < vd[b].Size(); l++) z += (*P(a, b))(k, l) * Bb(vd[b][l], e); J(off(mm[a]) + c, off(mm[b]) + e) += Ba(vd[a][k], c) * z; } }
               }
            }
         }
      }
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) delete P(i, j);
   }
   DenseMatrix gradient(const Vector &x, double before)
   {
      Array2D<SparseMatrix *> m(nsub, nsub); DenseMatrix J(size());
      for (int i = 0; i < nsub; i++) for (int j = 0; j < nsub; j++) { m(i, j) = new SparseMatrix(basis(i).Width(), basis(j).Width()); m(i, j)->Set(0, 0, before); }
      f->InterfaceGetGradient(x, m);
      for (int i = 0; i < nsub; i++) for (int j = 0; j < nsub; j++) { m(i, j)->Add(0, 0, -before); m(i, j)->Finalize(0); DenseMatrix d; m(i, j)->ToDenseMatrix(d); for (int a = 0; a < d.Height(); a++) for (int b = 0; b < d.Width(); b++) J(off(i) + a, off(j) + b) = d(a, b); delete m(i, j); }
      return J;
   }
   void evaluate(const Vector &x, const S &l)
   {
      Vector r, y(size()); DenseMatrix J; expected(x, r, J); fill(y, "old"); Vector w(r); w += y; f->InterfaceAddMult(x, y); eqv(y, w, l + ": adds the weighted sum of projected point contributions");
      DenseMatrix G = gradient(x, sx::real("oldJ", -1, 1)); eqm(G, J, l + ": adds the weighted sum of projected point Jacobians"); y = 0.0; f->InterfaceAddMult(x, y); eqv(y, r, l + ": evaluated again");
   }
   void derivative(const Vector &x, const S &l)
   { DenseMatrix G = gradient(x, 0.0); sx::jacobian(l + ": Jacobian is the derivative of the residual", sv(x), [&](std::vector<double> &z) { Vector a(z.data(), z.size()), o(size()); o = 0.0; f->InterfaceAddMult(a, o); return sv(o); }, [&](int i, int j) { return G(i, j); }); }
   static std::vector<double> sv(const Vector &v) { return std::vector<double>(v.GetData(), v.GetData() + v.Size()); }
   void all(const Vector &x, const Vector &before)
   {
      sx::check(!f->PrecomputeMode(), "evaluated point by point unless asked otherwise");
      { Vector y(size()); y = 0.0; f->InterfaceAddMult(before, y); gradient(before, 0.0); }
      evaluate(x, "pointwise"); derivative(x, "pointwise"); f->PrecomputeCoefficients(); f->SetPrecomputeMode(true);
      { Vector y(size()); y = 0.0; f->InterfaceAddMult(before, y); gradient(before, 0.0); }
      evaluate(x, "precomputed"); derivative(x, "precomputed"); f->SetPrecomputeMode(false); evaluate(x, "pointwise again");
   }
   // first coefficient of each subdomain of its own magnitude, so that the direction of the strongest flow is known
   Vector state(bool sym) { Vector x(size()); for (int m = 0; m < nsub; m++) for (int j = 0; j < basis(m).Width(); j++) { const int i = off(m) + j; const double s = j ? 0.0625 : (double)(1 << m); x[i] = sym ? sx::real("x" + I(m, j), s, 1.25 * s) : s * (1.125 - 0.0625 * j); } return x; }
};
static void evaluation(TopologyHandler &th, std::vector<int> nb, int offset)
{
   sx_nonzero_denominators(true); cfg(); ConstantCoefficient a(sx::real("a", 0.5, 2)), b(0.75); Form F(th, nb, offset); F.add(a, 2); F.add(b, 1);
   for (int p = 0; p < th.GetNumRefPorts(); p++)
   {
      const int n = th.GetRefInterfaceInfos(p)->Size(); F.sample(0, p, {{0, 0}}, 1); std::vector<std::pair<int, int>> s{{n - 1, 1}, {0, 0}}; if (p == 0) s.push_back({0, 1}); if (p == 0) s.push_back({n - 1, 0}); F.sample(0, p, s, 1); F.sample(1, p, {}, 0); if (p == 0) F.sample(1, p, {{n - 1, 0}}, 1);
   }
   F.all(F.state(true), F.state(false));
}
static void composed(const World &w, std::vector<int> nb, int offset)
{
   write(w); configure(w, 'y'); ComponentTopologyHandler th;
   for (int p = 0; p < th.GetNumPorts(); p++) { auto &g = *th.GetInterfaceInfos(p), &r = *th.GetRefInterfaceInfos(th.GetPortType(p)); sx::check(g.Size() == r.Size(), "a port has the faces of its reference"); for (int i = 0; i < std::min(g.Size(), r.Size()); i++) sx::check(g[i].BE1 == r[i].BE1 && g[i].BE2 == r[i].BE2, "in the same order"); }
   evaluation(th, nb, offset);
}
SX_CASE(strip_two_components) { composed(strip(0, 2, 1, true, 2, false, false), {2, 1}, 0); }
SX_CASE(strip_from_either_side) { composed(strip(0, 1, 1, true, 2, false, true), {1, 2}, 0); }
SX_CASE(strip_triangles) { composed(strip(1, 1, 1, true, 2, false, sx::choose("back", 0, 1)), {1, 1}, 0); }
SX_CASE(strip_offset) { composed(strip(0, 1, 0, false, 1, true, false), {1, 2}, 3); }
SX_CASE(one_component_repeated) { composed(lattice(0, 1, 1, true, order4(1), sx::choose("flip", 0, 1)), {1}, 0); }
SX_CASE_THOROUGH(repeated_two_vectors) { composed(lattice(0, 2, 1, true, order4(2), true), {2}, 2); }
SX_CASE_THOROUGH(strip_hexes) { composed(strip(2, 1, 5, true, 2, false, false), {1, 1}, 0); }
SX_CASE(decomposed)
{
   cfg(); Mesh pm = baseMesh(sx::choose("kind", 0, 1), 2, 2); for (int e = 0; e < pm.GetNE(); e++) pm.SetAttribute(e, 1 + (pm.GetElementGeometry(e) == Geometry::TRIANGLE ? e / 2 : e) % 3); pm.SetAttributes(); SubMeshTopologyHandler th(&pm); evaluation(th, {1, 2, 1}, 0);
}
// a port without samples contributes nothing; sampling one again replaces it for every subdomain
SX_CASE(unsampled_port)
{
   sx_nonzero_denominators(true); World w = lattice(0, 1, 1, true, order4(0), false); write(w); configure(w, 'y'); ComponentTopologyHandler th; cfg(); ConstantCoefficient a(sx::real("a", 0.5, 2)); Form F(th, {1}, 0); F.add(a, 2); F.add(a, 1);
   F.sample(0, 1, {{0, 1}}, 1); F.evaluate(F.state(true), "one port sampled"); F.sample(1, 0, {{0, 0}}, 1); F.sample(0, 1, {{0, 0}, {0, 0}}, 2); F.evaluate(F.state(true), "sampled again");
}
// every point with its weight: the projection of the full-order coupling
SX_CASE(full_sampling)
{
   sx_nonzero_denominators(true); World w = strip(0, 1, 1, true, 2, false, sx::choose("back", 0, 1)); write(w); configure(w, 'y'); ComponentTopologyHandler th; cfg(); ConstantCoefficient a(sx::real("a", 0.5, 2)); Form F(th, {1, 1}, 0); F.add(a, 3);
   for (int p = 0; p < th.GetNumRefPorts(); p++) { Array<SampleInfo> s; for (int i = 0; i < th.GetRefInterfaceInfos(p)->Size(); i++) for (int k = 0; k < F.ir[0]->GetNPoints(); k++) s.Append(SampleInfo({i, k, F.ir[0]->IntPoint(k).weight})); F.f->UpdateInterFaceIntegratorSampling(0, p, s); }
   InterfaceForm G(F.ms, F.fes, &th); G.AddInterfaceIntegrator(F.make(0)); Vector x = F.state(true), y(F.size()), u, z; y = 0.0; std::vector<int> o(1, 0); for (int m = 0; m < F.nsub; m++) o.push_back(o.back() + F.basis(m).Height()); u.SetSize(o.back()); z.SetSize(o.back()); z = 0.0;
   for (int m = 0; m < F.nsub; m++) { Vector v = F.lift(m, x); for (int i = 0; i < v.Size(); i++) u[o[m] + i] = v[i]; }
   F.f->InterfaceAddMult(x, y); G.InterfaceAddMult(u, z); for (int m = 0; m < F.nsub; m++) for (int c = 0; c < F.basis(m).Width(); c++) { double r = 0; for (int i = 0; i < F.basis(m).Height(); i++) r += F.basis(m)(i, c) * z[o[m] + i]; sx::eq(y[F.off(m) + c], r, "projection of the full coupling " + I(m, c)); }
}
// samples saved by one composition and loaded by another of the same components
SX_CASE(stored)
{
   sx_nonzero_denominators(true); World w = strip(0, 1, 1, true, 2, false, sx::choose("back", 0, 1)); write(w); configure(w, 'y'); ConstantCoefficient a(sx::real("a", 0.5, 2)); std::vector<std::map<int, Array<SampleInfo>>> saved;
   {
      ComponentTopologyHandler th; cfg(); Form F(th, {1, 1}, 0); F.add(a, 2); F.add(a, 1); F.sample(0, 0, {{0, 1}, {0, 0}}, 2); F.sample(0, 1, {{0, 0}}, 1); F.sample(1, 0, {}, 0); F.sample(1, 1, {{0, 0}}, 1); saved = F.smp;
      hid_t f = H5Fcreate("e.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (int k = 0; k < 2; k++) F.f->SaveEQPForIntegrator(k, f, "term" + I(k)); H5Fclose(f);
   }
   // ports, components and subdomains listed the other way round
   int other = sx::choose("other", 0, 3); World v = w; int swap = other & 1, swc = other >> 1;
   if (swap) { std::swap(v.ports[0], v.ports[1]); for (auto &d : v.itf) d[4] = 1 - d[4]; std::swap(v.itf[0], v.itf[1]); }
   if (swc) { std::swap(v.names[0], v.names[1]); std::swap(v.comps[0], v.comps[1]); for (auto &t : v.types) t = 1 - t; for (auto &p : v.ports) { p.c1 = 1 - p.c1; p.c2 = 1 - p.c2; } }
   write(v); configure(v, 'y'); ComponentTopologyHandler th; cfg(); Form G(th, {1, 1}, 0); G.add(a, 2); G.add(a, 1); G.sample(0, 0, {{0, 1}, {0, 1}}, 0);
   hid_t f = H5Fopen("e.h5", H5F_ACC_RDONLY, H5P_DEFAULT); for (int k = 0; k < 2; k++) G.f->LoadEQPForIntegrator(k, f, "term" + I(k)); H5Fclose(f);
   for (int k = 0; k < 2; k++) for (int p = 0; p < 2; p++) G.smp[k][p] = saved[k][swap ? 1 - p : p];
   G.evaluate(G.state(true), "loaded");
}
// ---- training of a reference port
static void training(const World &w, std::vector<int> nb, int offset, int nsym)
{
   sx_nonzero_denominators(true); int crit = sx::choose("criterion", 0, 1); write(w); configure(w, 'y'); ComponentTopologyHandler th; cfg(crit ? "{model_reduction: {eqp: {criterion: linf}}}" : "{}");
   ConstantCoefficient a(sx::real("a", 0.5, 2)), b(0.75); Form F(th, nb, offset); F.add(a, 2); F.add(b, 1); const double tol = 0.125; const int rp = sx::choose("port", 0, th.GetNumRefPorts() - 1); int c1, c2; th.GetComponentPair(rp, c1, c2);
   const int n1 = F.cfes[c1]->GetTrueVSize(), n2 = F.cfes[c2]->GetTrueVSize(), ns = 3; CAROM::Matrix s1(n1 + 2, 3, true), s2(n2, 2, true);
   for (int j = 0; j < 3; j++) for (int i = 0; i < n1 + 2; i++) s1(i, j) = 0.5 + 0.0625 * ((3 * i + 2 * j) % 7); for (int j = 0; j < 2; j++) for (int i = 0; i < n2; i++) s2(i, j) = 2.5 - 0.0625 * ((2 * i + 3 * j) % 5);
   for (int s = 0; s < nsym; s++) s2((5 * s + 1) % n2, s % 2) = sx::real("snap" + I(s), 2.25, 2.5);
   Array2D<int> pair(ns, 2); int pr[3][2] = {{2, 1}, {0, 0}, {2, 0}}; for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) pair(i, k) = pr[i][k];
   const int NB = nb[c1] + nb[c2]; auto &infos = *th.GetRefInterfaceInfos(rp); size_t call = 0; std::vector<CAROM::Vector> sol;
   CAROM::model::norm() = [](const CAROM::Vector &) { return 1.0; };   // reported only
   CAROM::model::nnls() = [&](const CAROM::Matrix &G, const CAROM::Vector &lb, const CAROM::Vector &ub, CAROM::Vector &x)
   {
      sx::check(call < 2, "one system per term"); if (call >= 2) return; sx::check(CAROM::model::criterion() == (crit ? CAROM::NNLS_termination::LINF : CAROM::NNLS_termination::L2), "the requested criterion");
      const IntegrationRule &ir = *F.ir[call]; const int nq = ir.GetNPoints(); bool ok = G.numRows() == infos.Size() * nq && G.numColumns() == NB * ns; sx::check(ok, "one unknown per quadrature point, one equation per snapshot pair and basis vector"); if (!ok) { call++; return; }
      for (int s = 0; s < ns; s++)
      {
         Vector u1(n1), u2(n2); for (int i = 0; i < n1; i++) u1[i] = s1(i, pr[s][0]); for (int i = 0; i < n2; i++) u2[i] = s2(i, pr[s][1]); std::vector<double> rhs(NB, 0.0);
         for (int e = 0; e < infos.Size(); e++) for (int k = 0; k < nq; k++)
         {
            std::unique_ptr<InterfaceNonlinearFormIntegrator> h(F.make(call)); Array<int> vd[2]; Vector r[2]; Form::point(h.get(), th, F.cfes[c1], F.cfes[c2], infos[e], ir.IntPoint(k), 1.0, u1, u2, vd, r, nullptr);
            for (int j = 0; j < NB; j++) { const int z = j >= nb[c1]; DenseMatrix &Bz = F.B[z ? c2 : c1]; double g = 0; for (int i = 0; i < vd[z].Size(); i++) g += Bz(vd[z][i], j - z * nb[c1]) * r[z][i]; sx::eq(G(e * nq + k, j + s * NB), g, "training matrix " + I((int)call) + I(e * nq + k, j + s * NB)); rhs[j] += ir.IntPoint(k).weight * g; }
         }
         for (int j = 0; j < NB; j++) { const int k = j + s * NB; sx::eq(lb(k) + ub(k), 2.0 * rhs[j], "the band is centred at the exact value"); if (nsym) continue; double d = tol * fabs(rhs[j]); sx::eq(lb(k), rhs[j] - d, "lower bound"); sx::eq(ub(k), rhs[j] + d, "upper bound"); }
      }
      for (int i = 0; i < x.dim(); i++) x(i) = i % 4 == 2 ? 0.0 : i % 4 == 1 ? 1e-13 : i < 4 ? sx::real("sol" + I((int)call) + I(i), 0.125, 2) : 0.25 + 0.125 * i;
      sol.push_back(x); call++;
   };
   F.f->TrainEQPForRefPort(rp, s1, s2, pair, tol); CAROM::model::nnls() = nullptr; CAROM::model::norm() = nullptr; sx::check(call == 2, "every term trained"); if (sol.size() < 2) return;
   for (int i = 0; i < 2; i++) { Array<SampleInfo> s; const int nq = F.ir[i]->GetNPoints(); for (int k = 0; k < sol[i].dim(); k++) if (k % 4 == 0 || k % 4 == 3) s.Append(SampleInfo({k / nq, k % nq, sol[i](k)})); F.smp[i][rp] = s; }
   F.evaluate(F.state(false), "with the trained samples");
}
SX_CASE(training_two_components) { training(strip(0, 2, 1, true, 2, false, false), {2, 1}, 0, 0); }
SX_CASE(training_states) { training(strip(0, 1, 0, true, 0, false, true), {1, 1}, 0, 1); }
SX_CASE(training_offset) { training(strip(1, 1, 1, true, 2, false, false), {1, 2}, 2, 0); }
SX_CASE(training_one_component) { training(lattice(0, 2, 1, true, order4(1), true), {2}, 0, 0); }
