// boundary-value problems on a decomposed mesh and the same problem on the undecomposed mesh
#pragma once
#include "dd.hpp"
#include "input_parser.hpp"
#include "parameterized_problem.hpp"
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
// The code under test shares one marker array between subdomains whose largest boundary attributes differ (as its
// comments say); that debug assertion is let through, every other one ends the run.
static bool mayRefuse = false; struct Refused {};                                  // set where an error report is the right answer
namespace mfem { void mfem_error(const char *m) { if (m && strstr(m, "invalid boundary marker")) return; if (mayRefuse) throw Refused(); fprintf(stderr, "%s\n", m ? m : ""); fflush(nullptr); std::abort(); } }
// ---- data of a problem: every boundary has a value c0 + c1 x + c2 y per component, so do source and materials
static const int ATTR[4] = {1, 5, 3, 2};                                           // attributes of the sides y=0, x=1, y=1, x=0
struct Lin { double c[3][3]; };
static Lin BV[6], SRC, FLOW[4], MAT, BRATE[6], SRATE;                           // the rates are used where time matters
static double lin(const Lin &l, int k, const Vector &x) { return l.c[k][0] + l.c[k][1] * x[0] + l.c[k][2] * x[1]; }
static void symLin(Lin &l, const S &n, int comps, double lo = -1, double hi = 1) { for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) l.c[k][i] = k < comps ? sx::real(n + I(k, i), lo, hi) : 0.0; }
template <int A> static double sbdr(const Vector &x, double) { return lin(BV[A], 0, x); }
template <int A> static void vbdr(const Vector &x, double, Vector &y) { for (int k = 0; k < y.Size(); k++) y[k] = lin(BV[A], k, x); }
static double ssrc(const Vector &x, double) { return lin(SRC, 0, x); }
static void vsrc(const Vector &x, double t, Vector &y) { for (int k = 0; k < y.Size(); k++) y[k] = lin(SRC, k, x) + (SRATE.c[k][0] != 0.0 ? t * lin(SRATE, k, x) : 0.0); }
template <int M> static void flow(const Vector &x, double, Vector &y) { for (int k = 0; k < y.Size(); k++) y[k] = lin(FLOW[M], k, x); }
static double mat0(const Vector &x, double) { return lin(MAT, 0, x); }
static double mat1(const Vector &x, double) { return lin(MAT, 1, x); }
static function_factory::GeneralScalarFunction *const SB[6] = {nullptr, sbdr<1>, sbdr<2>, sbdr<3>, nullptr, sbdr<5>};
static function_factory::GeneralVectorFunction *const VB[6] = {nullptr, vbdr<1>, vbdr<2>, vbdr<3>, nullptr, vbdr<5>};
typedef BoundaryType BT;
struct Prob : public ParameterizedProblem
{
   // kinds: per side of ATTR: 'D', 'N', 'T' (Neumann with data), 'Z', '-' (not mentioned), then possibly one for all sides that are not mentioned; turn: order in which the sides are listed
   Prob(const S &kinds, int turn, bool source)
   {
      problem_name = "none"; param_num = 0; battr.SetSize(0); bdr_type.SetSize(0); scalar_bdr_ptr.SetSize(0); vector_bdr_ptr.SetSize(0);
      if (kinds.size() > 4) add(-1, kinds[4]);                                          // all boundaries, before those that differ
      for (int i = 0; i < 4; i++) { const int s = (turn & 4 ? 3 - (i + turn) % 4 : (i + turn) % 4); add(ATTR[s], kinds[s]); }
      if (source) { scalar_rhs_ptr = ssrc; vector_rhs_ptr = vsrc; }
      general_scalar_ptr.SetSize(2); general_scalar_ptr[0] = mat0; general_scalar_ptr[1] = mat1; general_vector_ptr.SetSize(1); general_vector_ptr = nullptr;
   }
   void add(int a, char k)
   {
      if (k == '-') return; battr.Append(a); bdr_type.Append(k == 'D' ? BT::DIRICHLET : k == 'N' || k == 'T' ? BT::NEUMANN : BT::ZERO); const int f = a < 0 ? 1 : a;
      scalar_bdr_ptr.Append(k == 'D' ? SB[f] : nullptr); vector_bdr_ptr.Append(k == 'D' || k == 'T' ? VB[f] : nullptr);
   }
};
static std::vector<int> partOf(int k) { static const int p[6][4] = {{1, 2, 1, 2}, {1, 1, 2, 2}, {2, 1, 1, 1}, {1, 2, 3, 1}, {3, 4, 2, 1}, {1, 1, 1, 1}}; return std::vector<int>(p[k], p[k] + 4); }
// the mesh file and the configuration
struct World2
{
   Mesh pm; int order; bool dg;
   World2(int kind, const std::vector<int> &part, int ord, bool d, bool distort = true) : pm(baseMesh(kind, kind == 1 ? 1 : 2, 2, 1, distort)), order(ord), dg(d)
   {
      for (int e = 0; e < pm.GetNE(); e++) pm.SetAttribute(e, part[e % part.size()]);
      if (pm.Dimension() == 2) for (int b = 0; b < pm.GetNBE(); b++) pm.SetBdrAttribute(b, ATTR[pm.GetBdrAttribute(b) - 1]);
      pm.SetAttributes(); std::ofstream o("parent.mesh"); o.precision(17); pm.Print(o);
   }
   void configure(const S &more = "")
   {
      std::ostringstream o; o << "{mesh: {filename: parent.mesh}, parameterized_problem: {name: none}, discretization: {order: " << order << ", full-discrete-galerkin: " << (dg ? "true" : "false") << ", interface: {}}, main: {use_rom: false}" << (more.size() ? ", " : "") << more << "}";
      config.dict_ = YAML::Load(o.str());
   }
   void setReal(const char *a, const char *b, const char *c, double v) { if (c) config.dict_[a][b][c] = v; else config.dict_[a][b] = v; }
   int nsub() { return pm.attributes.Max(); }
   // elements of a subdomain, in the parent's order
   std::vector<int> elems(int m) { std::vector<int> r; for (int e = 0; e < pm.GetNE(); e++) if (pm.GetAttribute(e) == m + 1) r.push_back(e); return r; }
   static char kind(const S &kinds, int s) { return kinds[s] == '-' && kinds.size() > 4 ? kinds[4] : kinds[s]; }
   static int func(const S &kinds, int s) { return kinds[s] == '-' && kinds.size() > 4 ? 1 : ATTR[s]; }     // the function of that side
   Array<int> marker(const S &kinds, const char *which) { Array<int> m(pm.bdr_attributes.Max()); m = 0; for (int s = 0; s < 4; s++) if (strchr(which, kind(kinds, s))) m[ATTR[s] - 1] = 1; return m; }
};
// a discontinuous space on the parent and, for every unknown of every subdomain, its values in that space
struct Parent
{
   World2 &w; std::unique_ptr<FiniteElementCollection> fec; std::unique_ptr<FiniteElementSpace> f; typedef std::vector<std::vector<std::pair<int, double>>> Cols; std::vector<Cols> P;
   Parent(World2 &w_, int order, int vdim) : w(w_), fec(new L2_FECollection(order, w_.pm.Dimension(), BasisType::GaussLobatto)), f(new FiniteElementSpace(&w_.pm, fec.get(), vdim)) {}
   void add(FiniteElementSpace *s)
   {
      const int m = P.size(); std::vector<int> el = w.elems(m); sx::check((int)el.size() == s->GetNE(), "elements of a subdomain"); Cols c(s->GetVSize()); std::vector<char> done(f->GetVSize(), 0);
      for (int e = 0; e < s->GetNE(); e++)
      {
         const FiniteElement *a = s->GetFE(e), *b = f->GetFE(el[e]); Array<int> va, vb; s->GetElementVDofs(e, va); f->GetElementVDofs(el[e], vb); const int na = a->GetDof(), nb = b->GetDof(); Vector sh(na);
         for (int i = 0; i < nb; i++) { a->CalcShape(b->GetNodes().IntPoint(i), sh); for (int j = 0; j < na; j++) { double v = sh[j]; if (std::abs(v) < 1e-13) continue; if (std::abs(v - 1) < 1e-13) v = 1; for (int d = 0; d < s->GetVDim(); d++) c[va[d * na + j]].push_back({vb[d * nb + i], v}); } }
      }
      P.push_back(c);
   }
   Vector rhs(int m, const Vector &b) const { Vector r(P[m].size()); for (int i = 0; i < r.Size(); i++) { double s = 0; for (auto &p : P[m][i]) s += p.second * b[p.first]; r[i] = s; } return r; }
};
static DenseMatrix dense(const SparseMatrix &s) { DenseMatrix d; s.ToDenseMatrix(d); return d; }
static DenseMatrix reduce(const Parent &te, int i, const Parent &tr, int j, const DenseMatrix &A)
{
   DenseMatrix R(te.P[i].size(), tr.P[j].size()); for (int a = 0; a < R.Height(); a++) for (int b = 0; b < R.Width(); b++) { double s = 0; for (auto &p : te.P[i][a]) for (auto &q : tr.P[j][b]) s += p.second * q.second * A(p.first, q.first); R(a, b) = s; } return R;
}
template <class F> static DenseMatrix biform(FiniteElementSpace *f, F add) { BilinearForm a(f); add(a); a.Assemble(0); a.Finalize(0); return dense(a.SpMat()); }
template <class F> static Vector linform(FiniteElementSpace *f, F add) { LinearForm b(f); add(b); b.Assemble(); return Vector(b); }
// velocity-pressure coupling on the parent: -int q div u, int {q}[u].n on the faces between elements and int q u.n on the marked boundary
static DenseMatrix divergence(Parent &u, Parent &p, const Array<int> &marker, int q)
{
   Mesh &m = u.w.pm; const int dim = m.Dimension(); DenseMatrix B(p.f->GetVSize(), u.f->GetVSize()); B = 0.0;
   for (int e = 0; e < m.GetNE(); e++)
   {
      const FiniteElement &a = *u.f->GetFE(e), &b = *p.f->GetFE(e); ElementTransformation &T = *m.GetElementTransformation(e); const IntegrationRule &ir = IntRules.Get(a.GetGeomType(), q); DenseMatrix d(a.GetDof(), dim); Vector s(b.GetDof()); Array<int> va, vb; u.f->GetElementVDofs(e, va); p.f->GetElementVDofs(e, vb);
      for (int k = 0; k < ir.GetNPoints(); k++) { const IntegrationPoint &ip = ir.IntPoint(k); T.SetIntPoint(&ip); a.CalcPhysDShape(T, d); b.CalcShape(ip, s); for (int c = 0; c < dim; c++) for (int i = 0; i < s.Size(); i++) for (int j = 0; j < a.GetDof(); j++) B(vb[i], va[c * a.GetDof() + j]) -= ip.weight * T.Weight() * s[i] * d(j, c); }
   }
   auto face = [&](FaceElementTransformations *T) {
      const bool two = T->Elem2No >= 0; const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), q); const int el[2] = {T->Elem1No, T->Elem2No};
      for (int k = 0; k < ir.GetNPoints(); k++)
      {
         const IntegrationPoint &ip = ir.IntPoint(k); T->SetAllIntPoints(&ip); Vector n(dim); CalcOrtho(T->Jacobian(), n);
         for (int i = 0; i < 1 + two; i++) for (int j = 0; j < 1 + two; j++)
         {
            const FiniteElement &b = *p.f->GetFE(el[i]), &a = *u.f->GetFE(el[j]); Vector s(b.GetDof()), t(a.GetDof()); b.CalcShape(i ? T->GetElement2IntPoint() : T->GetElement1IntPoint(), s); a.CalcShape(j ? T->GetElement2IntPoint() : T->GetElement1IntPoint(), t); Array<int> va, vb; u.f->GetElementVDofs(el[j], va); p.f->GetElementVDofs(el[i], vb);
            for (int c = 0; c < dim; c++) for (int x = 0; x < s.Size(); x++) for (int y = 0; y < t.Size(); y++) B(vb[x], va[c * t.Size() + y]) += (two ? 0.5 : 1.0) * (j ? -1.0 : 1.0) * ip.weight * s[x] * t[y] * n[c];
         }
      } };
   for (int f = 0; f < m.GetNumFaces(); f++) if (FaceElementTransformations *T = m.GetInteriorFaceTransformations(f)) face(T);
   for (int b = 0; b < m.GetNBE(); b++) if (marker[m.GetBdrAttribute(b) - 1]) face(m.GetBdrFaceTransformations(b));
   return B;
}
// int q v.n on one boundary of the parent
static void addFlux(Parent &p, int attr, std::function<double(int, const Vector &)> v, int q, Vector &r)
{
   Mesh &m = p.w.pm; for (int b = 0; b < m.GetNBE(); b++) if (m.GetBdrAttribute(b) == attr)
   {
      FaceElementTransformations *T = m.GetBdrFaceTransformations(b); const FiniteElement &e = *p.f->GetFE(T->Elem1No); const IntegrationRule &ir = IntRules.Get(T->GetGeometryType(), q); Array<int> vd; p.f->GetElementVDofs(T->Elem1No, vd); Vector s(e.GetDof()), n(2), x(2);
      for (int k = 0; k < ir.GetNPoints(); k++) { const IntegrationPoint &ip = ir.IntPoint(k); T->SetAllIntPoints(&ip); CalcOrtho(T->Jacobian(), n); e.CalcShape(T->GetElement1IntPoint(), s); T->Elem1->Transform(T->GetElement1IntPoint(), x); const double un = v(0, x) * n[0] + v(1, x) * n[1]; for (int i = 0; i < s.Size(); i++) r[vd[i]] += ip.weight * un * s[i]; }
   }
}
static DenseMatrix byComponent(const DenseMatrix &A, double f) { const int n = A.Height(); DenseMatrix R(2 * n); R = 0.0; for (int c = 0; c < 2; c++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R(c * n + i, c * n + j) = f * A(i, j); return R; }
// boundary velocities of the incompressible problems
template <int A> static void fbdr(const Vector &x, double t, Vector &y) { vbdr<A>(x, t, y); if (BRATE[A].c[0][0] != 0.0) for (int k = 0; k < 2; k++) y[k] += t * lin(BRATE[A], k, x); Vector d(2); function_factory::flow_problem::flux(x, d); y -= d; }
[[maybe_unused]] static function_factory::GeneralVectorFunction *const FB[6] = {nullptr, fbdr<1>, fbdr<2>, fbdr<3>, nullptr, fbdr<5>};
[[maybe_unused]] static void balanced(Prob &p) { for (int b = 0; b < p.battr.Size(); b++) if (p.bdr_type[b] == BT::DIRICHLET) p.vector_bdr_ptr[b] = FB[p.battr[b]]; }
