// Domain decomposition by element attribute: subdomains, ports and their face pairing
#include "dd.hpp"
#include "input_parser.hpp"
#include <map>
#include <set>
static std::vector<int> sorted(Array<int> a) { std::vector<int> v(a.begin(), a.end()); std::sort(v.begin(), v.end()); return v; }
static int faceOfBE(const Mesh &m, int be) { return m.GetBdrFace(be); }
// the parent's face of a face of subdomain k, found from the vertices alone
static std::map<std::vector<int>, int> faceIds(Mesh &pm) { std::map<std::vector<int>, int> r; for (int f = 0; f < pm.GetNumFaces(); f++) { Array<int> v; pm.GetFaceVertices(f, v); r[sorted(v)] = f; } return r; }
// symbolic: coordinates of the vertices vary by up to eps (mesh topology is concrete)
static void symVerts(Mesh &m, double eps) { for (int v = 0; v < m.GetNV(); v++) for (int c = 0; c < m.Dimension(); c++) m.GetVertex(v)[c] += sx::real("v" + I(v, c), -eps, eps); }
// expects: parent pm with element attributes 1..n (every one used) and th built from it
static void checkTopology(Mesh &pm, TopologyHandler &th, int gapMax, bool none = false)
{
   Array<Mesh *> ms; TopologyData td; th.ExportInfo(ms, td);
   int n = 0; for (int e = 0; e < pm.GetNE(); e++) n = std::max(n, pm.GetAttribute(e)); if (none) n = 1;
   sx::check(td.numSub == n && ms.Size() == n && th.GetNumSubdomains() == n, "one subdomain per attribute");
   sx::check(td.dim == pm.Dimension() && td.global_bdr_attributes == &pm.bdr_attributes, "dimension and boundary attributes of the global mesh are exported");
   sx::check(th.GetGlobalMesh() == &pm, "the global mesh is the parent"); if (ms.Size() != n) return;
   sx::check(th.GetNumComponents() == n, "every subdomain is its own component");
   std::vector<int> seen(pm.GetNE(), 0); auto ids = faceIds(pm);
   std::map<int, int> bdrOf; for (int b = 0; b < pm.GetNBE(); b++) bdrOf[faceOfBE(pm, b)] = pm.GetBdrAttribute(b);
   int pmax = 0; for (int b = 0; b < pm.GetNBE(); b++) pmax = std::max(pmax, pm.GetBdrAttribute(b));
   std::vector<std::map<int, int>> beFace(n);   // boundary element -> parent face
   for (int k = 0; k < n; k++)
   {
      Mesh &m = *ms[k]; const S t = "subdomain " + I(k) + ": ";
      sx::check(th.GetMesh(k) == &m && th.GetComponentMesh(k) == &m && th.GetMeshType(k) == k && th.GetComponentIndexOfMesh(k) == 0 && th.GetNumSubdomains(k) == 1, t + "indices");
      SubMesh &s = static_cast<SubMesh &>(m); const Array<int> &pe = s.GetParentElementIDMap(), &pv = s.GetParentVertexIDMap();
      for (int e = 0; e < m.GetNE(); e++)
      {
         seen[pe[e]]++; sx::check((none || pm.GetAttribute(pe[e]) == k + 1) && m.GetAttribute(e) == pm.GetAttribute(pe[e]), t + "elements are those of its attribute");
         Array<int> a, b; m.GetElementVertices(e, a); pm.GetElementVertices(pe[e], b); bool ok = a.Size() == b.Size(); for (int i = 0; ok && i < a.Size(); i++) ok = pv[a[i]] == b[i]; sx::check(ok, t + "elements keep their vertices");
      }
      for (int v = 0; v < m.GetNV(); v++) for (int c = 0; c < m.Dimension(); c++) sx::eq(m.GetVertex(v)[c], pm.GetVertex(pv[v])[c], t + "vertex coordinates " + I(v, c));
      std::set<int> attrs;
      for (int b = 0; b < m.GetNBE(); b++)
      {
         Array<int> v; m.GetFaceVertices(faceOfBE(m, b), v); for (int &x : v) x = pv[x];
         auto it = ids.find(sorted(v)); sx::check(it != ids.end(), t + "boundary faces are faces of the parent"); if (it == ids.end()) return;
         beFace[k][b] = it->second; attrs.insert(m.GetBdrAttribute(b));
         int e1, e2; pm.GetFaceElements(it->second, &e1, &e2);
         if (e2 < 0 && bdrOf.count(it->second)) sx::check(m.GetBdrAttribute(b) == bdrOf[it->second], t + "outer boundary keeps its attribute");
         else if (e2 >= 0) sx::check(m.GetBdrAttribute(b) > pmax + 1, t + "cut faces carry a port attribute");
      }
      int nb = 0; for (int e = 0; e < m.GetNE(); e++) {} for (auto &f : ids) { int e1, e2; pm.GetFaceElements(f.second, &e1, &e2); bool i1 = none || pm.GetAttribute(e1) == k + 1, i2 = e2 >= 0 && (none || pm.GetAttribute(e2) == k + 1); nb += i1 != i2; }
      sx::check(m.GetNBE() == nb, t + "its boundary is complete");
      std::set<int> listed(m.bdr_attributes.begin(), m.bdr_attributes.end());
      sx::check(listed == attrs && (int)listed.size() == m.bdr_attributes.Size(), t + "list of boundary attributes is up to date");
   }
   for (int e = 0; e < pm.GetNE(); e++) sx::check(seen[e] == 1, "element " + I(e) + " is in exactly one subdomain");
   // ports
   std::set<std::pair<int, int>> want, have; std::set<int> cut, paired, pattr; int ncut = 0;
   for (int f = 0; f < pm.GetNumFaces(); f++)
   {
      int e1, e2; pm.GetFaceElements(f, &e1, &e2); if (none || e2 < 0 || pm.GetAttribute(e1) == pm.GetAttribute(e2)) continue;
      int a = pm.GetAttribute(e1) - 1, b = pm.GetAttribute(e2) - 1; want.insert({std::min(a, b), std::max(a, b)}); cut.insert(f);
   }
   sx::check(th.GetNumPorts() == (int)want.size() && th.GetNumRefPorts() == (int)want.size(), "one port per pair of adjacent subdomains");
   for (int p = 0; p < th.GetNumPorts(); p++)
   {
      const PortInfo *q = th.GetPortInfo(p); const S t = "port " + I(p) + ": "; int c1, c2, a1, a2, d1, d2;
      have.insert({q->Mesh1, q->Mesh2}); sx::check(q->Mesh1 >= 0 && q->Mesh1 < q->Mesh2 && q->Mesh2 < n, t + "joins two different subdomains");
      sx::check(q->PortAttr > pmax + 1 && pattr.insert(q->PortAttr).second, t + "has an attribute of its own"); 
      th.GetComponentPair(p, d1, d2); th.GetRefPortInfo(p, c1, c2, a1, a2);
      sx::check(c1 == q->Mesh1 && c2 == q->Mesh2 && d1 == c1 && d2 == c2 && a1 == q->Attr1 && a2 == q->Attr2 && th.GetPortType(p) == p && th.GetRefInterfaceInfos(p) == th.GetInterfaceInfos(p), t + "reference data");
      Mesh &m1 = *ms[q->Mesh1], &m2 = *ms[q->Mesh2];
      for (auto &i : *th.GetInterfaceInfos(p))
      {
         bool ok = beFace[q->Mesh1].count(i.BE1) && beFace[q->Mesh2].count(i.BE2) && beFace[q->Mesh1][i.BE1] == beFace[q->Mesh2][i.BE2];
         sx::check(ok, t + "pairs boundary elements of the same face"); if (!ok) return;
         sx::check(cut.count(beFace[q->Mesh1][i.BE1]) && paired.insert(beFace[q->Mesh1][i.BE1]).second, t + "every cut face once");
         sx::check(m1.GetBdrAttribute(i.BE1) == q->PortAttr && m2.GetBdrAttribute(i.BE2) == q->PortAttr && q->Attr1 == q->PortAttr && q->Attr2 == q->PortAttr, t + "its boundary elements carry its attribute");
         // the same points seen from either side
         FaceElementTransformations *T1, *T2; th.GetInterfaceTransformations(&m1, &m2, &i, T1, T2); const int d = pm.Dimension();
         const IntegrationRule &ir = IntRules.Get(T1->GetGeometryType(), 2); Vector x1(d), x2(d), n1(d), c1v(d), c2v(d);
         for (int z = 0; z < ir.GetNPoints(); z++)
         {
            T1->SetAllIntPoints(&ir.IntPoint(z)); T2->SetAllIntPoints(&ir.IntPoint(z));
            T1->GetElement1Transformation().Transform(T1->GetElement1IntPoint(), x1); T2->GetElement1Transformation().Transform(T2->GetElement1IntPoint(), x2);
            for (int c = 0; c < d; c++) sx::eq(x1[c], x2[c], t + "face points coincide " + I(i.BE1, z, c));
            T1->Transform(ir.IntPoint(z), x2); for (int c = 0; c < d; c++) sx::eq(x1[c], x2[c], t + "the face map and the element map of side 1 agree " + I(i.BE1, z, c));
         }
         // the normal of side 1 points to side 2
         CalcOrtho(T1->Jacobian(), n1); m1.GetElementCenter(T1->Elem1No, c1v); m2.GetElementCenter(T2->Elem1No, c2v); double s = 0.0; for (int c = 0; c < d; c++) s += n1[c] * (c2v[c] - c1v[c]);
         sx::check(s > 0.0, t + "the normal points from the first to the second subdomain");
      }
   }
   sx::check(want == have, "ports join exactly the adjacent subdomains"); sx::check(cut == paired, "every cut face is in a port");
   (void)gapMax; (void)ncut;
}
static void options() { if (!config.dict_.IsMap()) config.dict_ = YAML::Load("{}"); }
static void setOpt(const S &k, const S &v) { options(); config.SetOption<std::string>(k, v); }
static void partition(int kind, int nx, int ny, int nz, int k, double eps)
{
   Mesh m = baseMesh(kind, nx, ny, nz); auto p = choosePart(m.GetNE(), k);
   if (eps > 0) symVerts(m, eps);
   for (int e = 0; e < m.GetNE(); e++) m.SetAttribute(e, p[e]);   // the list of attributes is left stale on purpose
   SubMeshTopologyHandler th(&m); checkTopology(m, th, 0);
}
SX_CASE(quads_2) { partition(0, 2, 2, 1, 2, 0.05); }
SX_CASE(quads_3) { partition(0, 2, 2, 1, 3, 0.05); }
SX_CASE(quads_4) { partition(0, 2, 2, 1, 4, 0.05); }
SX_CASE(quads_strip) { partition(0, 3, 1, 1, 3, 0.05); }
SX_CASE(tris_2) { partition(1, 2, 1, 1, 2, 0.05); }
SX_CASE(tris_3) { partition(1, 2, 1, 1, 3, 0.05); }
SX_CASE(hex_2) { partition(2, 2, 2, 1, 2, 0.0); }
SX_CASE(hex_3) { partition(2, 3, 1, 1, 3, 0.05); }
SX_CASE(tet_2) { partition(3, 1, 1, 1, 2, 0.05); }
SX_CASE_THOROUGH(tet_3) { partition(3, 1, 1, 1, 3, 0.0); }
SX_CASE_THOROUGH(quads_6) { partition(0, 3, 2, 1, 3, 0.0); }
SX_CASE_THOROUGH(tris_8) { partition(1, 2, 2, 1, 2, 0.0); }
// any attributes on the outer boundary
SX_CASE(boundary_attributes)
{
   Mesh m = baseMesh(0, 2, 2); int at[4] = {1, 2, 2, 1}; if (sx::choose("columns", 0, 1)) { at[1] = 1; at[2] = 2; at[3] = 2; at[0] = 1; }
   for (int e = 0; e < 4; e++) m.SetAttribute(e, at[e]);
   for (int b = 0; b < m.GetNBE(); b++) m.SetBdrAttribute(b, b < 3 ? sx::choose("attr" + I(b), 1, 5) : 3);
   m.SetAttributes(); SubMeshTopologyHandler th(&m); checkTopology(m, th, 0);
}
// no decomposition: one subdomain, no ports
SX_CASE(none)
{
   Mesh m = baseMesh(1, 2, 1); auto p = choosePart(m.GetNE(), 2); for (int e = 0; e < m.GetNE(); e++) m.SetAttribute(e, p[e]); symVerts(m, 0.05);
   setOpt("domain-decomposition/type", "none"); SubMeshTopologyHandler th(&m); checkTopology(m, th, 0, true);
}
SX_CASE(modes)
{
   config.dict_ = YAML::Load("{}"); sx::check(SetTopologyHandlerMode() == SUBMESH, "submesh is the default"); setOpt("mesh/type", "component-wise"); sx::check(SetTopologyHandlerMode() == COMPONENT, "component-wise is recognised");
   setOpt("mesh/type", "submesh"); sx::check(SetTopologyHandlerMode() == SUBMESH, "submesh is recognised"); setOpt("mesh/type", "other"); sx::check(sx::rejects([] { SetTopologyHandlerMode(); }), "an unknown mode is rejected");
   Mesh m = baseMesh(0, 2, 1); setOpt("domain-decomposition/type", "other"); sx::check(sx::rejects([&] { SubMeshTopologyHandler th(&m); }), "an unknown decomposition is rejected");
}
// uniform refinement on construction, and the mesh read from the configured file
static void refined(int kind, int nx, int ny, int levels, bool file)
{
   Mesh m0 = baseMesh(kind, nx, ny); auto p = choosePart(m0.GetNE(), 2); for (int e = 0; e < m0.GetNE(); e++) m0.SetAttribute(e, p[e]); m0.SetAttributes();
   options(); config.SetOption<int>("mesh/uniform_refinement", levels);
   if (file)
   {
      { std::ofstream o("in.mesh"); o.precision(17); m0.Print(o); } setOpt("mesh/filename", "in.mesh");
      SubMeshTopologyHandler th; checkTopology(*th.GetGlobalMesh(), th, 0); Mesh ref("in.mesh"); for (int l = 0; l < levels; l++) ref.UniformRefinement(); sx::check(th.GetGlobalMesh()->GetNE() == ref.GetNE(), "refined as often as asked for");
      for (int v = 0; v < ref.GetNV(); v++) for (int c = 0; c < ref.Dimension(); c++) sx::eq(th.GetGlobalMesh()->GetVertex(v)[c], ref.GetVertex(v)[c], "vertices of the file " + I(v, c));
      for (int e = 0; e < ref.GetNE(); e++) sx::check(th.GetGlobalMesh()->GetAttribute(e) == ref.GetAttribute(e), "attributes of the file");
   }
   else { int ne = m0.GetNE(); SubMeshTopologyHandler th(&m0); for (int l = 0; l < levels; l++) ne *= 4; sx::check(m0.GetNE() == ne, "refined as often as asked for"); checkTopology(m0, th, 0); }
}
SX_CASE(refined_quads) { refined(0, 2, 1, 1, false); }
SX_CASE(refined_twice) { refined(1, 1, 1, 2, false); }
SX_CASE(from_file) { refined(0, 2, 2, sx::choose("levels", 0, 1), true); }
// subdomain fields are gathered into global fields, each variable into its own
static void gather(int kind, int nx, int ny, int nz, int k, int nv, bool h1, int order, int vdim, bool byv)
{
   DD d(baseMesh(kind, nx, ny, nz), choosePart(baseMesh(kind, nx, ny, nz).GetNE(), k)); const int dim = d.pm.Dimension(), n = d.n();
   std::vector<FiniteElementCollection *> fec; std::vector<FiniteElementSpace *> pf; std::vector<std::vector<FiniteElementSpace *>> sf(nv); Array<GridFunction *> us(n * nv), gs(nv); std::vector<Vector> want(nv);
   for (int v = 0; v < nv; v++)
   {
      const int vd = v == 0 ? vdim : 1, o = v == 0 ? order : 1;   // the second variable is of another kind
      fec.push_back(h1 ? (FiniteElementCollection *)new H1_FECollection(o, dim) : new L2_FECollection(o, dim)); pf.push_back(new FiniteElementSpace(&d.pm, fec[v], vd, byv ? Ordering::byVDIM : Ordering::byNODES));
      want[v].SetSize(pf[v]->GetVSize()); fill(want[v], "g" + I(v)); gs[v] = new GridFunction(pf[v]); *gs[v] = 7.0;
      for (int m = 0; m < n; m++)
      {
         sf[v].push_back(new FiniteElementSpace(d.meshes[m], fec[v], vd, byv ? Ordering::byVDIM : Ordering::byNODES)); GridFunction *u = us[m * nv + v] = new GridFunction(sf[v][m]);
         for (int e = 0; e < d.meshes[m]->GetNE(); e++) { Array<int> a, b; sf[v][m]->GetElementVDofs(e, a); pf[v]->GetElementVDofs(d.parentElem(m, e), b); for (int i = 0; i < a.Size(); i++) (*u)[a[i]] = want[v][b[i]]; }
      }
   }
   std::vector<Vector> before; for (auto u : us) before.push_back(Vector(*u));
   d.th->TransferToGlobal(us, gs, nv);
   for (int v = 0; v < nv; v++) eqv(*gs[v], want[v], "variable " + I(v));
   for (int i = 0; i < us.Size(); i++) eqv(*us[i], before[i], "the fields of the subdomains are unchanged " + I(i));
}
SX_CASE(gather_dg) { gather(0, 2, 2, 1, 2, 2, false, 1, 2, false); }
SX_CASE(gather_h1) { gather(0, 2, 2, 1, 3, 2, true, 2, 2, false); }
SX_CASE(gather_one) { gather(1, 1, 1, 1, 2, 1, true, 1, 2, true); }
SX_CASE(gather_three) { gather(1, 2, 1, 1, 3, 3, true, 1, 1, false); }
SX_CASE(gather_tet) { gather(3, 1, 1, 1, 2, 2, true, 1, 1, false); }
