// component meshes, global configuration and port files for the composed domains
#pragma once
#include "dd.hpp"
#include "input_parser.hpp"
#include "component_topology_handler.hpp"
#include "hdf5.h"
#include <array>
#include <fstream>
#include <map>
#include <set>
typedef std::array<double, 6> Six;
// the same mesh with vertices, elements and boundary elements listed in another order and elements turned
static Mesh shuffled(const Mesh &m, int rot, bool rev)
{
   const int d = m.Dimension(), nv = m.GetNV(), ne = m.GetNE(), nb = m.GetNBE(); Mesh r(d, nv, ne, nb);
   auto V = [&](int v) { return rev ? nv - 1 - v : v; };
   for (int v = 0; v < nv; v++) r.AddVertex(m.GetVertex(V(v)));
   for (int q = 0; q < ne; q++)
   {
      const Element *e = m.GetElement(rev ? ne - 1 - q : q); const int n = e->GetNVertices(); const int *v = e->GetVertices(); std::vector<int> w(n);
      for (int i = 0; i < n; i++)
      {
         int j = i;
         if (d == 2) j = (i + rot) % n;
         else if (e->GetType() == Element::TETRAHEDRON) { for (int k = 0; k < rot % 3; k++) j = j == 0 ? 0 : 1 + j % 3; }
         else
         {
            static const int c[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; int x = c[i][0], y = c[i][1], z = c[i][2];
            for (int k = 0; k < rot % 4; k++) { int t = y; y = 1 - z; z = t; } for (int k = 0; k < rot / 4; k++) { int t = x; x = 1 - y; y = t; }
            for (j = 0; j < 8; j++) if (c[j][0] == x && c[j][1] == y && c[j][2] == z) break;
         }
         w[i] = V(v[j]);
      }
      if (e->GetType() == Element::TRIANGLE) r.AddTriangle(w.data(), e->GetAttribute()); else if (e->GetType() == Element::QUADRILATERAL) r.AddQuad(w.data(), e->GetAttribute());
      else if (e->GetType() == Element::TETRAHEDRON) r.AddTet(w.data(), e->GetAttribute()); else r.AddHex(w.data(), e->GetAttribute());
   }
   for (int q = 0; q < nb; q++)
   {
      const Element *e = m.GetBdrElement(rev ? nb - 1 - q : q); const int n = e->GetNVertices(); std::vector<int> w(n); for (int i = 0; i < n; i++) w[i] = V(e->GetVertices()[i]);
      if (n == 2) r.AddBdrSegment(w.data(), e->GetAttribute()); else if (n == 3) r.AddBdrTriangle(w.data(), e->GetAttribute()); else r.AddBdrQuad(w.data(), e->GetAttribute());
   }
   r.FinalizeMesh(0, false); return r;
}
// unit square / cube with matching opposite sides, distorted inside; attributes of the sides: {x=0, x=1, y=0, y=1}
static const int SIDE[2][4] = {{4, 2, 1, 3}, {5, 3, 2, 4}};
static Mesh component(int kind, int nx, int ny, int rot, bool rev, int attr)
{
   Mesh b = kind == 0 ? Mesh::MakeCartesian2D(nx, ny, Element::QUADRILATERAL, true, 1, 1, false) : kind == 1 ? Mesh::MakeCartesian2D(nx, ny, Element::TRIANGLE, true, 1, 1, false)
          : Mesh::MakeCartesian3D(nx, ny, 1, kind == 2 ? Element::HEXAHEDRON : Element::TETRAHEDRON, 1, 1, 1, false);
   for (int v = 0; v < b.GetNV(); v++) { double *p = b.GetVertex(v), x = p[0], y = p[1]; p[0] += 0.1 * x * (1 - x) * (1 + y * (1 - y)); p[1] += 0.12 * y * (1 - y) * (1 + x * (1 - x)); if (b.Dimension() == 3) p[2] += 0.05 * std::sin(3 * p[2]) * (1 - p[2]); }
   for (int e = 0; e < b.GetNE(); e++) b.SetAttribute(e, attr); b.SetAttributes();
   Mesh r = shuffled(b, rot, rev); r.SetCurvature(1); return r;
}
struct RefPort { S name; int c1, c2, a1, a2; Six tr; };
struct World
{
   int dim = 2; std::vector<S> names; std::vector<Mesh> comps; std::vector<int> types; std::vector<Six> conf; std::vector<RefPort> ports; std::vector<std::array<int, 5>> itf; std::vector<std::array<int, 3>> bdr;
   bool bdrElsewhere = false; int refine = 0; double gap = -1;
   std::vector<char> inDict;   // ports described in the global file
   int side(int s) const { return SIDE[dim - 2][s]; }
};
static void attrInt(hid_t g, const char *n, int v) { hid_t s = H5Screate(H5S_SCALAR), a = H5Acreate(g, n, H5T_NATIVE_INT, s, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, H5T_NATIVE_INT, &v); H5Aclose(a); H5Sclose(s); }
static void attrStr(hid_t g, const char *n, const S &v) { hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, H5T_VARIABLE); hid_t s = H5Screate(H5S_SCALAR), a = H5Acreate(g, n, t, s, H5P_DEFAULT, H5P_DEFAULT); const char *p = v.c_str(); H5Awrite(a, t, &p); H5Aclose(a); H5Sclose(s); H5Tclose(t); }
static void data(hid_t g, const char *n, hid_t t, std::vector<hsize_t> dims, const void *p) { hid_t s = H5Screate_simple(dims.size(), dims.data(), NULL), d = H5Dcreate2(g, n, t, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, p); H5Dclose(d); H5Sclose(s); }
static void writeBoundary(hid_t f, const World &w) { data(f, "boundary", H5T_NATIVE_INT, {w.bdr.size(), 3}, w.bdr.data()); }
static void write(const World &w)
{
   for (size_t c = 0; c < w.comps.size(); c++) { std::ofstream o((w.names[c] + ".mesh").c_str()); o.precision(17); w.comps[c].Print(o); }
   hid_t f = H5Fcreate("global.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), g = H5Gcreate(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   attrInt(g, "number_of_components", w.names.size()); for (size_t c = 0; c < w.names.size(); c++) attrStr(g, I(c).c_str(), w.names[c]);
   data(g, "meshes", H5T_NATIVE_INT, {w.types.size()}, w.types.data()); data(g, "configuration", H5T_NATIVE_DOUBLE, {w.conf.size(), 6}, w.conf.data()); H5Gclose(g);
   g = H5Gcreate(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); attrInt(g, "number_of_references", w.ports.size());
   for (size_t p = 0; p < w.ports.size(); p++)
   {
      attrStr(g, I(p).c_str(), w.ports[p].name); if (w.inDict.empty() || !w.inDict[p]) continue;
      hid_t q = H5Gcreate(g, w.ports[p].name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); attrStr(q, "comp1", w.names[w.ports[p].c1]); attrStr(q, "comp2", w.names[w.ports[p].c2]); attrInt(q, "attr1", w.ports[p].a1); attrInt(q, "attr2", w.ports[p].a2);
      data(q, "comp2_configuration", H5T_NATIVE_DOUBLE, {6}, w.ports[p].tr.data()); H5Gclose(q);
   }
   if (w.itf.size()) data(g, "interface", H5T_NATIVE_INT, {w.itf.size(), 5}, w.itf.data()); H5Gclose(g);
   if (!w.bdrElsewhere) writeBoundary(f, w); H5Fclose(f);
   if (w.bdrElsewhere) { f = H5Fcreate("bdr.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); writeBoundary(f, w); H5Fclose(f); }
}
// how: 'y' ports described in the input file, 'w' the same and written to port files, 'f' only read from those files
static void configure(const World &w, char how)
{
   std::ostringstream o; o.precision(17);
   o << "mesh:\n  type: component-wise\n  uniform_refinement: " << w.refine << "\n  component-wise:\n    global_config: global.h5\n    bdr_config: bdr.h5\n    write_ports: " << (how == 'w' ? "true" : "false") << "\n";
   if (w.gap > 0) o << "    vertex_gap_threshold: " << w.gap << "\n";
   o << "    components:\n      - name: unused\n        file: nowhere.mesh\n"; for (int c = (int)w.names.size() - 1; c >= 0; c--) o << "      - name: " << w.names[c] << "\n        file: " << w.names[c] << ".mesh\n";
   o << "    ports:\n      - name: unknown\n        file: nowhere.h5\n        comp1: {name: none, attr: 1}\n        comp2: {name: none, attr: 2}\n        comp2_configuration: [0, 0, 0, 0, 0, 0]\n";
   for (int p = (int)w.ports.size() - 1; p >= 0; p--)
   {
      const RefPort &q = w.ports[p]; if (!w.inDict.empty() && w.inDict[p] && how == 'y') continue;
      o << "      - name: " << q.name << "\n"; if (how != 'y') o << "        file: port_" << q.name << ".h5\n"; if (how == 'f') continue;
      o << "        comp1: {name: " << w.names[q.c1] << ", attr: " << q.a1 << "}\n        comp2: {name: " << w.names[q.c2] << ", attr: " << q.a2 << "}\n        comp2_configuration: [";
      for (int k = 0; k < 6; k++) o << (k ? ", " : "") << q.tr[k]; o << "]\n";
   }
   config.dict_ = YAML::Load(o.str());
}
// three meshes in a row, alpha beta alpha; back: the second port is listed from the other side
[[maybe_unused]] static World strip(int kind, int ny, int ra, bool va, int rb, bool vb, bool back, double x0 = 0, double y0 = 0, double z0 = 0)
{
   World w; w.dim = kind < 2 ? 2 : 3; w.names = {"alpha", "beta"}; w.comps.push_back(component(kind, 1, ny, ra, va, 1)); w.comps.push_back(component(kind, kind < 2 ? 2 : 1, ny, rb, vb, 2)); w.types = {0, 1, 0};
   for (int m = 0; m < 3; m++) w.conf.push_back(Six{{x0 + m, y0, z0, 0, 0, 0}});
   const int L = w.side(0), R = w.side(1); w.ports.push_back({"ab", 0, 1, R, L, Six{{1, 0, 0, 0, 0, 0}}});
   if (back) w.ports.push_back({"back", 0, 1, L, R, Six{{-1, 0, 0, 0, 0, 0}}}); else w.ports.push_back({"ba", 1, 0, R, L, Six{{1, 0, 0, 0, 0, 0}}});
   w.itf.push_back({{0, 1, R, L, 0}}); if (back) w.itf.push_back({{2, 1, L, R, 1}}); else w.itf.push_back({{1, 2, R, L, 1}});
   for (int m = 2; m >= 0; m--) for (int a = 1; a <= (w.dim == 2 ? 4 : 6); a++) if (a != L && a != R) w.bdr.push_back({{a + (m == 1 ? 7 : 3), m, a}}); w.bdr.push_back({{2, 0, L}}); w.bdr.push_back({{20, 2, R}});
   return w;
}
// one component repeated on a 2x2 lattice, meshes listed in the given order
[[maybe_unused]] static World lattice(int kind, int n, int rot, bool rev, std::vector<int> order, bool flip, double x0 = 0, double y0 = 0)
{
   World w; w.dim = 2; w.names = {"cell"}; w.comps.push_back(component(kind, n, n, rot, rev, 1)); int at[4]; const int L = w.side(0), R = w.side(1), D = w.side(2), U = w.side(3);
   for (int k = 0; k < 4; k++) { at[order[k]] = k; w.types.push_back(0); w.conf.push_back(Six{{x0 + order[k] % 2, y0 + order[k] / 2, 0, 0, 0, 0}}); }
   w.ports.push_back({"vertical", 0, 0, U, D, Six{{0, 1, 0, 0, 0, 0}}}); if (flip) w.ports.push_back({"across", 0, 0, L, R, Six{{-1, 0, 0, 0, 0, 0}}}); else w.ports.push_back({"across", 0, 0, R, L, Six{{1, 0, 0, 0, 0, 0}}});
   for (int r = 0; r < 2; r++) { if (flip) w.itf.push_back({{at[2 * r + 1], at[2 * r], L, R, 1}}); else w.itf.push_back({{at[2 * r], at[2 * r + 1], R, L, 1}}); w.itf.push_back({{at[r], at[2 + r], U, D, 0}}); }
   for (int c = 0; c < 4; c++) { w.bdr.push_back({{c % 2 ? 2 : 4, at[c], c % 2 ? R : L}}); w.bdr.push_back({{c / 2 ? 3 : 1, at[c], c / 2 ? U : D}}); }
   return w;
}
[[maybe_unused]] static std::vector<int> order4(int k) { static const int o[4][4] = {{0, 1, 2, 3}, {3, 1, 0, 2}, {2, 3, 1, 0}, {1, 0, 3, 2}}; return std::vector<int>(o[k], o[k] + 4); }
