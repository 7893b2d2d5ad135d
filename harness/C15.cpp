// Global domains composed of component meshes: placement, ports, boundary attributes and coupling
#include "comp.hpp"
static void place(const Six &c, const double *x, int dim, double *y)
{
   for (int k = 0; k < dim; k++) y[k] = x[k];
   if (dim == 2) { y[0] = std::cos(c[3]) * x[0] - std::sin(c[3]) * x[1]; y[1] = std::sin(c[3]) * x[0] + std::cos(c[3]) * x[1]; }
   for (int k = 0; k < dim; k++) y[k] += c[k];
}
static std::set<int> setOf(const Array<int> &a) { return std::set<int>(a.begin(), a.end()); }
static void checkWorld(const World &w, ComponentTopologyHandler &th)
{
   const int n = w.types.size(), dim = w.dim, nc = w.names.size(); Array<Mesh *> ms; TopologyData td; th.ExportInfo(ms, td);
   sx::check(ms.Size() == n && td.numSub == n && td.dim == dim && th.GetNumSubdomains() == n && th.GetNumComponents() == nc, "sizes"); if (ms.Size() != n) return;
   sx::check(th.GetType() == COMPONENT, "type");
   std::vector<int> count(nc, 0);
   for (int m = 0; m < n; m++)
   {
      const S t = "mesh " + I(m) + ": "; Mesh &c = *th.GetComponentMesh(w.types[m]), &g = *ms[m]; sx::check(th.GetMesh(m) == &g && th.GetMeshType(m) == w.types[m] && th.GetComponentIndexOfMesh(m) == count[w.types[m]]++, t + "indices");
      sx::check(g.GetNE() == c.GetNE() && g.GetNBE() == c.GetNBE(), t + "is a copy of its component"); IsoparametricTransformation A, B;
      for (int e = 0; e < c.GetNE(); e++)
      {
         sx::check(g.GetAttribute(e) == c.GetAttribute(e), t + "element attributes"); c.GetElementTransformation(e, &A); g.GetElementTransformation(e, &B); const IntegrationRule *v = Geometries.GetVertices(c.GetElementBaseGeometry(e));
         for (int i = 0; i < v->GetNPoints(); i++) { Vector x(dim), y(dim); double z[3]; A.Transform(v->IntPoint(i), x); B.Transform(v->IntPoint(i), y); place(w.conf[m], x.GetData(), dim, z); for (int k = 0; k < dim; k++) sx::eq(y[k], z[k], t + "is its component moved as configured " + I(e, i, k)); }
      }
   }
   for (int c = 0; c < nc; c++) sx::check(th.GetComponentName(c) == w.names[c] && th.GetNumSubdomains(c) == count[c], "component " + I(c) + ": name and number of subdomains");
   // reference ports
   sx::check(th.GetNumRefPorts() == (int)w.ports.size(), "number of reference ports");
   for (size_t p = 0; p < w.ports.size(); p++)
   {
      const RefPort &q = w.ports[p]; const S t = "port " + q.name + ": "; int c1, c2, a1, a2, d1, d2; th.GetRefPortInfo(p, c1, c2, a1, a2); th.GetComponentPair(p, d1, d2); sx::check(c1 == q.c1 && c2 == q.c2 && a1 == q.a1 && a2 == q.a2 && d1 == c1 && d2 == c2, t + "components and attributes");
      Mesh &m1 = *th.GetComponentMesh(c1), &m2 = *th.GetComponentMesh(c2); std::set<int> s1, s2, t1, t2;
      for (int b = 0; b < m1.GetNBE(); b++) if (m1.GetBdrAttribute(b) == a1) s1.insert(b); for (int b = 0; b < m2.GetNBE(); b++) if (m2.GetBdrAttribute(b) == a2) s2.insert(b);
      Array<InterfaceInfo> &ii = *th.GetRefInterfaceInfos(p); for (auto &i : ii) { t1.insert(i.BE1); t2.insert(i.BE2); }
      sx::check(s1 == t1 && s2 == t2 && ii.Size() == (int)s1.size(), t + "every boundary element of either side once");
      auto *pd = th.GetPortData(p); std::set<int> vs; for (int b : s2) { Array<int> v; m2.GetBdrElementVertices(b, v); vs.insert(v.begin(), v.end()); }
      sx::check(vs.size() == pd->vtx2to1.size(), t + "all vertices matched");
      for (auto &v : pd->vtx2to1) { double z[3]; place(q.tr, m2.GetVertex(v.first), dim, z); for (int k = 0; k < dim; k++) sx::eq(m1.GetVertex(v.second)[k], z[k], t + "matched vertices coincide " + I(k), w.gap > 0 ? w.gap : 1e-9); }
   }
   // ports of the global domain
   sx::check(th.GetNumPorts() == (int)w.itf.size(), "number of ports"); int top = 0, cmax = 0; std::set<int> gset, pset; for (auto &b : w.bdr) { gset.insert(b[0]); top = std::max(top, b[0]); } for (int c = 0; c < nc; c++) cmax = std::max(cmax, th.GetComponentMesh(c)->bdr_attributes.Max());
   sx::check(td.global_bdr_attributes && setOf(*td.global_bdr_attributes) == gset && td.global_bdr_attributes->Size() == (int)gset.size(), "boundary attributes of the global domain");
   std::map<std::pair<int, int>, int> want; for (auto &b : w.bdr) want[{b[1], b[2]}] = b[0];
   for (size_t p = 0; p < w.itf.size(); p++)
   {
      const PortInfo *q = th.GetPortInfo(p); auto &d = w.itf[p]; const S t = "port " + I(p) + ": ";
      sx::check(q->Mesh1 == d[0] && q->Mesh2 == d[1] && q->Attr1 == d[2] && q->Attr2 == d[3] && th.GetPortType(p) == d[4], t + "as listed"); sx::check(q->PortAttr > cmax && q->PortAttr > top + 1 && pset.insert(q->PortAttr).second, t + "has an attribute of its own");
      want[{d[0], d[2]}] = q->PortAttr; want[{d[1], d[3]}] = q->PortAttr;
      Mesh &m1 = *ms[d[0]], &m2 = *ms[d[1]];
      for (auto &i : *th.GetInterfaceInfos(p))
      {
         FaceElementTransformations *T1, *T2; th.GetInterfaceTransformations(&m1, &m2, &i, T1, T2); const IntegrationRule &ir = IntRules.Get(T1->GetGeometryType(), 2); Vector x1(dim), x2(dim), nn(dim);
         for (int z = 0; z < ir.GetNPoints(); z++)
         {
            T1->SetAllIntPoints(&ir.IntPoint(z)); T2->SetAllIntPoints(&ir.IntPoint(z)); T1->GetElement1Transformation().Transform(T1->GetElement1IntPoint(), x1); T2->GetElement1Transformation().Transform(T2->GetElement1IntPoint(), x2);
            for (int k = 0; k < dim; k++) sx::eq(x1[k], x2[k], t + "face points coincide " + I(i.BE1, z, k), w.gap > 0 ? w.gap : 1e-9); T1->Transform(ir.IntPoint(z), x2); for (int k = 0; k < dim; k++) sx::eq(x1[k], x2[k], t + "the face map and the element map of side 1 agree " + I(i.BE1, z, k));
         }
         CalcOrtho(T1->Jacobian(), nn); T1->Elem1->Transform(Geometries.GetCenter(m1.GetElementBaseGeometry(T1->Elem1No)), x1); T2->Elem1->Transform(Geometries.GetCenter(m2.GetElementBaseGeometry(T2->Elem1No)), x2);
         double s = 0.0; for (int k = 0; k < dim; k++) s += nn[k] * (x2[k] - x1[k]); sx::check(s > 0.0, t + "the normal points from the first to the second mesh");
      }
   }
   for (int m = 0; m < n; m++)
   {
      const S t = "mesh " + I(m) + ": "; Mesh &c = *th.GetComponentMesh(w.types[m]), &g = *ms[m]; std::set<int> used; Array<int> &map = *th.GetBdrAttrComponentToGlobalMap(m); sx::check(map.Size() == c.bdr_attributes.Size(), t + "attribute map covers the component"); if (map.Size() != c.bdr_attributes.Size()) return;
      for (int k = 0; k < map.Size(); k++) sx::check(want.count({m, c.bdr_attributes[k]}) && map[k] == want[{m, c.bdr_attributes[k]}], t + "attribute map is as configured");
      for (int b = 0; b < g.GetNBE(); b++) { used.insert(g.GetBdrAttribute(b)); sx::check(g.GetBdrAttribute(b) == want[{m, c.GetBdrAttribute(b)}], t + "boundary attributes are as configured"); }
      sx::check(setOf(g.bdr_attributes) == used && g.bdr_attributes.Size() == (int)used.size(), t + "list of boundary attributes");
   }
}
static void samePorts(ComponentTopologyHandler &a, ComponentTopologyHandler &b, const S &t)
{
   sx::check(a.GetNumRefPorts() == b.GetNumRefPorts(), t + "number of ports");
   for (int p = 0; p < a.GetNumRefPorts(); p++)
   {
      auto *x = a.GetPortData(p), *y = b.GetPortData(p); sx::check(x->Component1 == y->Component1 && x->Component2 == y->Component2 && x->Attr1 == y->Attr1 && x->Attr2 == y->Attr2, t + "components and attributes");
      sx::check(x->vtx2to1 == y->vtx2to1, t + "vertices"); std::map<int, int> q, r; for (int i = 0; i < x->be_pairs.NumRows(); i++) q[x->be_pairs(i, 0)] = x->be_pairs(i, 1); for (int i = 0; i < y->be_pairs.NumRows(); i++) r[y->be_pairs(i, 0)] = y->be_pairs(i, 1); sx::check(q == r, t + "boundary elements");
   }
}
static double T(const S &n) { return sx::real("shift_" + n, -3, 3); }
static void sources(World w)
{
   write(w); configure(w, 'y'); ComponentTopologyHandler a; checkWorld(w, a);
   configure(w, 'w'); ComponentTopologyHandler b; samePorts(a, b, "written: "); configure(w, 'f'); { ComponentTopologyHandler c; samePorts(a, c, "from port files: "); checkWorld(w, c); }
   w.inDict.assign(w.ports.size(), 1); write(w); configure(w, 'y'); { ComponentTopologyHandler c; samePorts(a, c, "from the global file: "); checkWorld(w, c); }
   w.inDict[0] = 0; w.bdrElsewhere = true; write(w); configure(w, 'y'); { ComponentTopologyHandler c; samePorts(a, c, "from both: "); checkWorld(w, c); }
}
SX_CASE(strip_quads) { sources(strip(0, 2, sx::choose("ra", 0, 3), sx::choose("va", 0, 1), sx::choose("rb", 0, 3), sx::choose("vb", 0, 1), false, T("x"), T("y"))); }
SX_CASE(strip_back) { sources(strip(0, 2, 1, sx::choose("va", 0, 1), sx::choose("rb", 0, 3), sx::choose("vb", 0, 1), true, T("x"), T("y"))); }
SX_CASE(strip_tris) { sources(strip(1, 2, sx::choose("ra", 0, 2), sx::choose("va", 0, 1), sx::choose("rb", 0, 2), sx::choose("vb", 0, 1), sx::choose("back", 0, 1), T("x"), T("y"))); }
SX_CASE(strip_hexes) { int r = sx::choose("rb", 0, 15); sources(strip(2, 1, 5, true, r, r % 2, r % 3 == 0, T("x"), T("y"), T("z"))); }
SX_CASE(strip_tets) { sources(strip(3, 1, 0, sx::choose("va", 0, 1), sx::choose("rb", 0, 2), sx::choose("vb", 0, 1), sx::choose("back", 0, 1), T("x"), T("y"), T("z"))); }
SX_CASE_THOROUGH(strip_hexes_all) { sources(strip(2, 2, sx::choose("ra", 0, 15), sx::choose("va", 0, 1), sx::choose("rb", 0, 15), sx::choose("vb", 0, 1), sx::choose("back", 0, 1), T("x"), T("y"), T("z"))); }
SX_CASE_THOROUGH(strip_tets_2) { sources(strip(3, 2, sx::choose("ra", 0, 2), sx::choose("va", 0, 1), sx::choose("rb", 0, 2), sx::choose("vb", 0, 1), sx::choose("back", 0, 1), T("x"), T("y"), T("z"))); }
SX_CASE(lattice_quads) { sources(lattice(0, 2, sx::choose("rot", 0, 3), sx::choose("rev", 0, 1), order4(sx::choose("order", 0, 3)), sx::choose("flip", 0, 1), T("x"), T("y"))); }
SX_CASE(lattice_tris) { sources(lattice(1, 1, sx::choose("rot", 0, 2), sx::choose("rev", 0, 1), order4(sx::choose("order", 0, 3)), sx::choose("flip", 0, 1), T("x"), T("y"))); }
SX_CASE(refined) { World w = lattice(0, 1, sx::choose("rot", 0, 3), true, order4(1), false, T("x"), T("y")); w.refine = sx::choose("levels", 1, 2); w.gap = 1e-8; write(w); configure(w, 'y'); ComponentTopologyHandler a; checkWorld(w, a); }
// placement by any rotation
SX_CASE(rotated)
{
   World w; w.names = {"cell"}; w.comps.push_back(component(0, 2, 1, 1, true, 1)); w.types = {0, 0}; for (int m = 0; m < 2; m++) { double t = sx::real("angle" + I(m), -3, 3); w.conf.push_back(Six{{T("x" + I(m)), T("y" + I(m)), 0, t, 0, 0}}); }
   for (int m = 0; m < 2; m++) for (int a = 1; a <= 4; a++) w.bdr.push_back({{a + 2 * m, m, a}});
   write(w); configure(w, 'y'); ComponentTopologyHandler th; checkWorld(w, th);
}
// a second component turned by a quarter against the first
SX_CASE(turned_port)
{
   World w; w.names = {"cell"}; w.comps.push_back(component(sx::choose("kind", 0, 1), 2, 2, 1, true, 1)); w.types = {0, 0}; const double h = std::acos(-1.0) / 2; int q = sx::choose("quarter", 0, 3); double c[4][2] = {{1, 0}, {2, 0}, {2, 1}, {1, 1}}; int side[4] = {0, 3, 1, 2};
   Six tr{{c[q][0], c[q][1], 0, q * h, 0, 0}}; w.conf.push_back(Six{{0, 0, 0, 0, 0, 0}}); w.conf.push_back(tr); int a2 = w.side(side[q]); w.ports.push_back({"turned", 0, 0, w.side(1), a2, tr}); w.itf.push_back({{0, 1, w.side(1), a2, 0}}); w.gap = 0.2;
   for (int m = 0; m < 2; m++) for (int a = 1; a <= 4; a++) if (a != (m ? a2 : w.side(1))) w.bdr.push_back({{a, m, a}});
   write(w); configure(w, 'y'); ComponentTopologyHandler th; checkWorld(w, th); w.inDict = {1}; write(w); configure(w, 'y'); ComponentTopologyHandler b; samePorts(th, b, "from the global file: "); checkWorld(w, b);
}
// vertices are matched exactly when every coordinate differs by less than the threshold
static void gapTest(int kind, int axis, double t)
{
   World w = strip(kind, 1, 0, true, 1, false, false); double off = sx::real("offset", -3, 3) * t; sx::assume(std::fabs(std::fabs(off) - t) > 1e-6 * t);
   w.ports[0].tr[axis] += off; w.inDict = {1, 1}; w.gap = t; write(w); configure(w, 'y');
   bool no = sx::rejects([&] { ComponentTopologyHandler th; });
   sx::check(no == (std::fabs(off) >= t), "vertices match exactly within the threshold");
}
SX_CASE(gap_x) { gapTest(0, 0, 1e-3); }
SX_CASE(gap_y) { gapTest(0, 1, 1e-2); }
SX_CASE(gap_z) { gapTest(2, 2, 1e-3); }
SX_CASE(gap_default) { World w = strip(0, 1, 0, true, 1, false, false); double off = sx::real("offset", -3, 3) * 1e-10; sx::assume(std::fabs(std::fabs(off) - 1e-10) > 1e-13); w.ports[0].tr[0] += off; w.inDict = {1, 1}; write(w); configure(w, 'y'); bool no = sx::rejects([&] { ComponentTopologyHandler th; }); sx::check(no == (std::fabs(off) >= 1e-10), "vertices match exactly within the default threshold"); }
// a malformed composition is refused
SX_CASE(refused)
{
   World w = strip(0, 1, 0, true, 1, false, false); int k = sx::choose("what", 0, 3);
   if (k == 0) w.ports[0].a1 = 9; if (k == 1) w.ports[0].a2 = 9; if (k == 3) { w.names = {"alpha", "beta", "gamma"}; w.comps.push_back(component(0, 1, 1, 0, false, 1)); }
   write(w); configure(w, 'y'); if (k == 2) config.dict_["mesh"]["component-wise"]["ports"] = YAML::Load("[]"); if (k == 3) { config.dict_["mesh"]["component-wise"].remove("components"); }
   sx::check(sx::rejects([&] { ComponentTopologyHandler th; }), "refused");
}
// the transformations used for placement and their inverses
SX_CASE(transforms)
{
   for (int k = 0; k < 3; k++) { mesh_config::trans[k] = sx::real("t" + I(k), -2, 2); mesh_config::rotate[k] = sx::real("r" + I(k), -3, 3); }
   Vector x = vec(2, "x"), y, z; mesh_config::Transform2D(x, y); mesh_config::InverseTransform2D(y, z); eqv(z, x, "2D: inverse undoes the transformation"); mesh_config::InverseTransform2D(x, y); mesh_config::Transform2D(y, z); eqv(z, x, "2D: the transformation undoes its inverse");
   Vector a = vec(3, "a"), b, c; mesh_config::Transform3D(a, b); for (int k = 0; k < 3; k++) sx::eq(b[k], a[k] + mesh_config::trans[k], "3D: translation " + I(k)); mesh_config::InverseTransform3D(b, c); eqv(c, a, "3D: inverse undoes the transformation");
   Six s; for (int k = 0; k < 3; k++) { s[k] = mesh_config::trans[k]; s[k + 3] = mesh_config::rotate[k]; } double w[3]; place(s, x.GetData(), 2, w); mesh_config::Transform2D(x, y); for (int k = 0; k < 2; k++) sx::eq(y[k], w[k], "2D: rotation, then translation " + I(k));
}
// ------------------------------------------------------------------ coupling
struct MeshCoef : public Coefficient { std::vector<double> q; std::vector<double> g; double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { double x[3], r = q[T.Attribute - 1]; Vector v(x, 3); T.SetIntPoint(&ip); T.Transform(ip, v); for (size_t k = 0; k < g.size(); k++) r += g[k] * x[k]; return r; } };
// one mesh of the whole domain, element by element in the order of the meshes, attribute = number of the mesh
static Mesh merged(const World &w, ComponentTopologyHandler &th)
{
   std::vector<std::array<double, 3>> vs; std::vector<std::vector<int>> el; std::vector<int> at;
   for (size_t m = 0; m < w.types.size(); m++)
   {
      Mesh &c = *th.GetComponentMesh(w.types[m]);
      for (int e = 0; e < c.GetNE(); e++)
      {
         Array<int> v; c.GetElementVertices(e, v); std::vector<int> q;
         for (int x : v)
         {
            std::array<double, 3> p{{0, 0, 0}}; place(w.conf[m], c.GetVertex(x), w.dim, p.data()); size_t i = 0;
            for (; i < vs.size(); i++) if (std::fabs(vs[i][0] - p[0]) + std::fabs(vs[i][1] - p[1]) + std::fabs(vs[i][2] - p[2]) < 1e-8) break; if (i == vs.size()) vs.push_back(p); q.push_back(i);
         }
         el.push_back(q); at.push_back(m + 1);
      }
   }
   Mesh r(w.dim, vs.size(), el.size(), 0); for (auto &p : vs) r.AddVertex(p.data());
   for (size_t e = 0; e < el.size(); e++) if (w.dim == 2) { if (el[e].size() == 3) r.AddTriangle(el[e].data(), at[e]); else r.AddQuad(el[e].data(), at[e]); } else { if (el[e].size() == 4) r.AddTet(el[e].data(), at[e]); else r.AddHex(el[e].data(), at[e]); }
   r.FinalizeMesh(0, false); if (w.dim == 3) { r.SetBdrAttribute(0, 899); r.SetAttributes(); } return r;
}
static Array2D<SparseMatrix *> zeros(Array<FiniteElementSpace *> &te, Array<FiniteElementSpace *> &tr) { Array2D<SparseMatrix *> b(te.Size(), tr.Size()); for (int i = 0; i < te.Size(); i++) for (int j = 0; j < tr.Size(); j++) b(i, j) = new SparseMatrix(te[i]->GetVSize(), tr[j]->GetVSize()); return b; }
static DenseMatrix dense(SparseMatrix &s) { if (!s.Finalized()) s.Finalize(0); DenseMatrix d; s.ToDenseMatrix(d); return d; }
static Array<FiniteElementSpace *> spaces(const Array<Mesh *> &ms, FiniteElementCollection &f, int vdim) { Array<FiniteElementSpace *> r; for (int m = 0; m < ms.Size(); m++) r.Append(new FiniteElementSpace(ms[m], &f, vdim)); return r; }
// form: 0 diffusion, 1 elasticity, 2 vector diffusion, 3 velocity-pressure
static void coupling(const World &w, int form, int order)
{
   write(w); configure(w, 'y'); ComponentTopologyHandler th; Array<Mesh *> ms; TopologyData td; th.ExportInfo(ms, td); const int n = w.types.size(), nc = w.names.size(), dim = w.dim; Array<Mesh *> cm; for (int c = 0; c < nc; c++) cm.Append(th.GetComponentMesh(c));
   config.dict_ = YAML::Load("{}"); Mesh pm = merged(w, th); SubMeshTopologyHandler sh(&pm); Array<Mesh *> ss; TopologyData sd; sh.ExportInfo(ss, sd);
   L2_FECollection fec(order, dim, BasisType::GaussLobatto), pfec(order - (form == 3), dim, BasisType::GaussLobatto); const int vdim = form == 0 ? 1 : dim;
   auto f1 = spaces(ms, fec, vdim), f2 = spaces(ss, fec, vdim), fc = spaces(cm, fec, vdim), p1 = spaces(ms, pfec, 1), p2 = spaces(ss, pfec, 1), pc = spaces(cm, pfec, 1);
   double sg = sx::real("sigma", -1, 1), ka = sx::real("kappa", 1, 20); MeshCoef byComp, byMesh, lc, lm; for (int c = 0; c < nc; c++) { byComp.q.push_back(sx::real("q" + I(c), 0.5, 2)); lc.q.push_back(sx::real("l" + I(c), 0.5, 2)); } for (int m = 0; m < n; m++) { byMesh.q.push_back(byComp.q[w.types[m]]); lm.q.push_back(lc.q[w.types[m]]); }
   auto make = [&](MeshCoef &q, MeshCoef &l) -> InterfaceNonlinearFormIntegrator * {
      switch (form) { case 0: return new InterfaceDGDiffusionIntegrator(q, sg, ka); case 1: return new InterfaceDGElasticityIntegrator(&l, &q, sg, ka); case 2: return new InterfaceDGVectorDiffusionIntegrator(q, sg, ka); default: return new InterfaceDGNormalFluxIntegrator; } };
   Array2D<SparseMatrix *> A, B; std::vector<Array2D<SparseMatrix *>> at(w.ports.size());
   for (size_t p = 0; p < w.ports.size(); p++) { at[p].SetSize(2, 2); at[p] = NULL; }
   if (form < 3)
   {
      InterfaceForm a(ms, f1, &th), b(ss, f2, &sh); a.AddInterfaceIntegrator(make(byComp, lc)); b.AddInterfaceIntegrator(make(byMesh, lm)); A = zeros(f1, f1); B = zeros(f2, f2); a.AssembleInterfaceMatrices(A); b.AssembleInterfaceMatrices(B);
      for (size_t p = 0; p < w.ports.size(); p++) a.AssembleInterfaceMatrixAtPort(p, fc, at[p]);
   }
   else
   {
      MixedInterfaceForm a(ms, f1, p1, &th), b(ss, f2, p2, &sh); a.AddInterfaceIntegrator(make(byComp, lc)); b.AddInterfaceIntegrator(make(byMesh, lm)); A = zeros(p1, f1); B = zeros(p2, f2); a.AssembleInterfaceMatrices(A); b.AssembleInterfaceMatrices(B);
      for (size_t p = 0; p < w.ports.size(); p++) a.AssembleInterfaceMatrixAtPort(p, fc, pc, at[p]);
   }
   std::vector<std::vector<DenseMatrix>> sum(n, std::vector<DenseMatrix>(n));
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { DenseMatrix x = dense(*A(i, j)); eqm(x, dense(*B(i, j)), "composed and decomposed domain couple alike " + I(i, j)); sum[i][j].SetSize(x.Height(), x.Width()); sum[i][j] = 0.0; }
   for (auto &d : w.itf) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sum[d[i]][d[j]] += dense(*at[d[4]](i, j));
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) eqm(dense(*A(i, j)), sum[i][j], "sum of the reference ports is the coupling of the domain " + I(i, j));
}
SX_CASE(couple_diffusion_strip) { coupling(strip(0, 1, sx::choose("ra", 0, 3), true, sx::choose("rb", 0, 3), false, sx::choose("back", 0, 1), 0.5, -1), 0, 1); }
SX_CASE(couple_diffusion_lattice) { coupling(lattice(sx::choose("kind", 0, 1), 1, 1, true, order4(sx::choose("order", 0, 3)), sx::choose("flip", 0, 1)), 0, 1); }
SX_CASE(couple_elasticity_strip) { coupling(strip(1, 1, 1, true, sx::choose("rb", 0, 2), false, sx::choose("back", 0, 1)), 1, 1); }
SX_CASE(couple_elasticity_lattice) { coupling(lattice(0, 1, 1, true, order4(1), sx::choose("flip", 0, 1)), 1, 1); }
SX_CASE(couple_vecdiff) { coupling(lattice(1, 1, 2, true, order4(2), sx::choose("flip", 0, 1)), 2, 1); }
SX_CASE(couple_flux_strip) { coupling(strip(1, 1, 1, true, sx::choose("rb", 0, 2), false, sx::choose("back", 0, 1)), 3, 1); }
SX_CASE(couple_flux_lattice) { coupling(lattice(0, 1, 1, true, order4(1), sx::choose("flip", 0, 1)), 3, 2); }
SX_CASE(couple_diffusion_hex) { coupling(strip(2, 1, 5, true, sx::choose("rb", 0, 7), false, false), 0, 1); }
SX_CASE_THOROUGH(couple_flux_hex) { coupling(strip(2, 1, 5, true, sx::choose("rb", 0, 15), false, sx::choose("back", 0, 1)), 3, 1); }
SX_CASE_THOROUGH(couple_diffusion_2) { coupling(lattice(0, 2, sx::choose("rot", 0, 3), true, order4(sx::choose("order", 0, 3)), sx::choose("flip", 0, 1)), 0, 2); }
