// decomposed meshes shared by the harnesses
#pragma once
#include "h.hpp"
#include "topology_handler.hpp"
#include "interface_form.hpp"
#include "etc.hpp"
#include <cmath>

// a deterministic, mildly distorted mesh (concrete geometry); kind: 0 quads, 1 triangles, 2 hexes, 3 tets
static inline Mesh baseMesh(int kind, int nx, int ny, int nz = 1, bool distort = true)
{
   Mesh m = kind == 0 ? Mesh::MakeCartesian2D(nx, ny, Element::QUADRILATERAL, true, 1.0 * nx, 1.25 * ny, false)
          : kind == 1 ? Mesh::MakeCartesian2D(nx, ny, Element::TRIANGLE, true, 1.0 * nx, 1.25 * ny, false)
          : Mesh::MakeCartesian3D(nx, ny, nz, kind == 2 ? Element::HEXAHEDRON : Element::TETRAHEDRON, 1.0 * nx, 1.25 * ny, 0.75 * nz, false);
   if (distort)
      for (int v = 0; v < m.GetNV(); v++)
      {
         double *x = m.GetVertex(v); double a = x[0], b = x[1], c = m.Dimension() == 3 ? x[2] : 0.0;
         x[0] += 0.11 * std::sin(1.3 * a + 2.1 * b + 0.7 * c + 0.2); x[1] += 0.09 * std::cos(1.7 * a - 0.6 * b + 1.1 * c);
         if (m.Dimension() == 3) x[2] += 0.07 * std::sin(0.9 * a + 0.8 * b - 0.5 * c + 0.4);
      }
   // this MFEM (4.5) marks boundary created by a 3D submesh with attribute 900, the code under test expects
   // (MFEM 4.6) one more than the parent's largest attribute: give the parent a largest attribute of 899
   if (m.Dimension() == 3) { m.SetBdrAttribute(0, 899); m.SetAttributes(); }
   return m;
}
struct DD
{
   Mesh pm; SubMeshTopologyHandler *th = nullptr; Array<Mesh *> meshes; TopologyData td;
   DD(const Mesh &m0, const std::vector<int> &attr) : pm(m0)
   {
      for (int e = 0; e < pm.GetNE(); e++) pm.SetAttribute(e, attr[e]);
      pm.SetAttributes();
      th = new SubMeshTopologyHandler(&pm); th->ExportInfo(meshes, td);
   }
   ~DD() { delete th; }
   int n() { return meshes.Size(); }
   int parentElem(int k, int e) { return static_cast<SubMesh *>(meshes[k])->GetParentElementIDMap()[e]; }
};
struct Spaces   // discontinuous spaces on the parent and on every subdomain
{
   DD &d; FiniteElementCollection *fec; FiniteElementSpace *pf; Array<FiniteElementSpace *> fes; std::vector<std::vector<int>> map; Array<int> off;
   Spaces(DD &dd, int order, int vdim, bool byv = false) : d(dd)
   {
      fec = new L2_FECollection(order, dd.pm.Dimension(), BasisType::GaussLobatto);
      pf = new FiniteElementSpace(&dd.pm, fec, vdim, byv ? Ordering::byVDIM : Ordering::byNODES);
      off.SetSize(dd.n() + 1); off = 0;
      for (int k = 0; k < dd.n(); k++)
      {
         fes.Append(new FiniteElementSpace(dd.meshes[k], fec, vdim, byv ? Ordering::byVDIM : Ordering::byNODES));
         std::vector<int> m(fes[k]->GetVSize(), -1);
         for (int e = 0; e < dd.meshes[k]->GetNE(); e++)
         {
            Array<int> a, b; fes[k]->GetElementVDofs(e, a); pf->GetElementVDofs(dd.parentElem(k, e), b);
            for (int i = 0; i < a.Size(); i++) m[a[i]] = b[i];
         }
         map.push_back(m); off[k + 1] = off[k] + fes[k]->GetVSize();
      }
   }
   // block vector over subdomains <-> parent vector
   Vector toBlocks(const Vector &p) { Vector b(off[d.n()]); for (int k = 0; k < d.n(); k++) for (size_t i = 0; i < map[k].size(); i++) b[off[k] + i] = p[map[k][i]]; return b; }
   Vector toParent(const Vector &b) { Vector p(pf->GetVSize()); p = 0.0; for (int k = 0; k < d.n(); k++) for (size_t i = 0; i < map[k].size(); i++) p[map[k][i]] = b[off[k] + i]; return p; }
};
static inline Array2D<SparseMatrix *> blocks(Spaces &te, Spaces &tr)
{
   Array2D<SparseMatrix *> m(te.d.n(), te.d.n());
   for (int i = 0; i < te.d.n(); i++) for (int j = 0; j < te.d.n(); j++) m(i, j) = new SparseMatrix(te.fes[i]->GetVSize(), tr.fes[j]->GetVSize());
   return m;
}
// the block system as one dense matrix in parent numbering
static inline DenseMatrix toParent(Spaces &te, Spaces &tr, Array2D<SparseMatrix *> &m)
{
   DenseMatrix g(te.pf->GetVSize(), tr.pf->GetVSize()); g = 0.0;
   for (int i = 0; i < te.d.n(); i++) for (int j = 0; j < te.d.n(); j++)
   {
      if (!m(i, j)->Finalized()) m(i, j)->Finalize(0);
      const int *ip = m(i, j)->GetI(), *jp = m(i, j)->GetJ(); const double *a = m(i, j)->GetData();
      for (int r = 0; r < m(i, j)->Height(); r++) for (int q = ip[r]; q < ip[r + 1]; q++) g(te.map[i][r], tr.map[j][jp[q]]) += a[q];
   }
   return g;
}
// coefficient: one value per subdomain attribute plus a linear variation in space
struct AttrCoef : public Coefficient
{
   std::vector<double> q, g;
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override
   {
      double r = q[(T.Attribute - 1) % q.size()];
      if (g.size()) { double xd[3]; Vector x(xd, 3); T.SetIntPoint(&ip); T.Transform(ip, x); for (int i = 0; i < x.Size() && i < (int)g.size(); i++) r += g[i] * xd[i]; }
      return r;
   }
   int np() { return q.size() + g.size(); }
   double &p(int i) { return i < (int)q.size() ? q[i] : g[i - q.size()]; }
};
static inline AttrCoef symCoef(const S &n, int na, int dim, bool lin = true)
{
   AttrCoef c; for (int i = 0; i < na; i++) c.q.push_back(sx::real(n + "q" + I(i), 0.5, 2)); if (lin) for (int i = 0; i < dim; i++) c.g.push_back(sx::real(n + "g" + I(i), -0.1, 0.1)); return c;
}
static inline AttrCoef unitCoef(const AttrCoef &like, int i) { AttrCoef c = like; for (int k = 0; k < c.np(); k++) c.p(k) = k == i ? 1.0 : 0.0; return c; }
// sum over parent faces that separate subdomains of a face matrix, in parent numbering
template <class F> void addFaces(DD &d, F f, bool interfaces, bool interiors)
{
   for (int i = 0; i < d.pm.GetNumFaces(); i++)
   {
      FaceElementTransformations *T = d.pm.GetInteriorFaceTransformations(i);
      if (!T) continue;
      bool itf = d.pm.GetAttribute(T->Elem1No) != d.pm.GetAttribute(T->Elem2No);
      if (itf ? interfaces : interiors) f(*T);
   }
}
static inline void addTo(DenseMatrix &G, const Array<int> &r, const Array<int> &c, const DenseMatrix &m, double s)
{
   for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) G(r[i], c[j]) += s * m(i, j);
}
static inline void vd2(FiniteElementSpace *f, FaceElementTransformations &T, Array<int> &v) { Array<int> b; f->GetElementVDofs(T.Elem1No, v); f->GetElementVDofs(T.Elem2No, b); v.Append(b); }
// every assignment of n elements to subdomains 1..k (each used)
static inline std::vector<int> choosePart(int n, int k)
{
   std::vector<int> a; for (int i = 0; i < n; i++) a.push_back(sx::choose("part[" + I(i) + "]", 1, k));
   for (int j = 1; j <= k; j++) { bool f = false; for (int x : a) f = f || x == j; sx::assume(f); }
   return a;
}
