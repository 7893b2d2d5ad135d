// C11: component-wise reduced operators survive being saved and loaded into any composition of the same components
#include "comp.hpp"
#include "rom_element_collection.hpp"
#include <memory>
struct Cell { int c, x, y; };
static const char *NAMES[] = {"alpha", "beta", "gamma", "delta"};
static Mesh cellMesh(int c, int nb)
{
   Mesh m = Mesh::MakeCartesian2D(1, 1, c == 2 ? Element::TRIANGLE : Element::QUADRILATERAL, true, 1, 1, false);
   if (nb == 3) { for (int b = 0; b < m.GetNBE(); b++) if (m.GetBdrAttribute(b) == 1) m.SetBdrAttribute(b, 3); m.SetAttributes(); }
   m.SetCurvature(1); return m;
}
// order: components in the order in which the composition lists them;  merged: bottom and top of that component share an attribute
static World grid(const std::vector<Cell> &cells, const std::vector<int> &order, bool revports, bool flip = false, int merged = -1)
{
   World w; w.dim = 2; std::map<int, int> idx;
   for (int c : order) { idx[c] = w.names.size(); w.names.push_back(NAMES[c]); w.comps.push_back(cellMesh(c, c == merged ? 3 : 4)); }
   for (auto &q : cells) { w.types.push_back(idx[q.c]); w.conf.push_back(Six{{(double)q.x, (double)q.y, 0, 0, 0, 0}}); }
   const int L = 4, R = 2, D = 1, U = 3;
   std::vector<std::array<int, 4>> key; std::vector<std::set<int>> used(cells.size());
   for (size_t a = 0; a < cells.size(); a++) for (size_t b = 0; b < cells.size(); b++)
   {
      const bool h = cells[b].x == cells[a].x + 1 && cells[b].y == cells[a].y, v = cells[b].y == cells[a].y + 1 && cells[b].x == cells[a].x; if (!h && !v) continue;
      int m1 = a, m2 = b, a1 = h ? R : U, a2 = h ? L : D; Six t{{h ? 1. : 0., v ? 1. : 0., 0, 0, 0, 0}};
      if (flip) { std::swap(m1, m2); std::swap(a1, a2); t[0] = -t[0]; t[1] = -t[1]; }
      std::array<int, 4> k{{idx[cells[m1].c], idx[cells[m2].c], a1, a2}}; size_t p = 0; while (p < key.size() && key[p] != k) p++;
      if (p == key.size()) { key.push_back(k); w.ports.push_back({S("p") + NAMES[cells[m1].c] + NAMES[cells[m2].c] + I(a1) + I(a2), k[0], k[1], a1, a2, t}); }
      w.itf.push_back({{m1, m2, a1, a2, (int)p}}); used[m1].insert(a1); used[m2].insert(a2);
   }
   if (revports) { std::reverse(w.ports.begin(), w.ports.end()); for (auto &i : w.itf) i[4] = w.ports.size() - 1 - i[4]; }
   for (size_t m = 0; m < cells.size(); m++) for (int a = 1; a <= 4; a++) if (!used[m].count(a) && !(cells[m].c == merged && a == 1)) w.bdr.push_back({{a, (int)m, a}});
   return w;
}
typedef std::map<S, DenseMatrix> Store;   // by name; absent blocks are not stored
static void fillBlocks(MatrixBlocks &b, const S &n, Store &st, int absent)
{
   int k = 0;
   for (int i = 0; i < b.nrows; i++) for (int j = 0; j < b.ncols; j++, k++)
   {
      if (absent >= 0 && (k + absent) % 3 == 0) continue;
      const int h = 1 + i % 2, w = 1 + j % 2 + (h == 1); DenseMatrix d;
      b(i, j) = sparse(h, w, n + I(i, j), {{0, 0}, {h - 1, w - 1}}, &d); st[n + I(i, j)] = d;
   }
}
static void eqBlocks(const MatrixBlocks &b, const S &n, const Store &st, int bs)
{
   sx::check(b.nrows == bs && b.ncols == bs, n + ": number of blocks"); if (b.nrows != bs || b.ncols != bs) return;
   for (int i = 0; i < bs; i++) for (int j = 0; j < bs; j++)
   {
      auto it = st.find(n + I(i, j));
      if (it == st.end()) { sx::check(!b(i, j) || b(i, j)->NumNonZeroElems() == 0, n + I(i, j) + " stays absent"); continue; }
      sx::check(b(i, j) != NULL, n + I(i, j) + " present"); if (b(i, j)) eqs(*b(i, j), it->second, n + I(i, j));
   }
}
static S portName(ComponentTopologyHandler &th, int p) { int c1, c2, a1, a2; th.GetRefPortInfo(p, c1, c2, a1, a2); return "port " + th.GetComponentName(c1) + ":" + I(a1) + " " + th.GetComponentName(c2) + ":" + I(a2); }
struct Elems
{
   std::unique_ptr<ComponentTopologyHandler> th; Array<FiniteElementSpace *> fes; std::unique_ptr<ROMLinearElement> el; int bs;
   Elems(const World &w, int nvar, bool sep)
   {
      write(w); configure(w, 'y'); th.reset(new ComponentTopologyHandler); config.dict_ = YAML::Load("{}");
      fes.SetSize(th->GetNumComponents() * nvar); fes = NULL; bs = sep ? nvar : 1;
      el.reset(new ROMLinearElement(th.get(), fes, sep));
   }
   // tag: leading part of the names of the values
   void fill(Store &st, const S &tag, int absent)
   {
      for (int c = 0; c < th->GetNumComponents(); c++)
      {
         const S n = tag + th->GetComponentName(c);
         fillBlocks(*el->comp[c], n + " domain", st, absent); fillBlocks(*el->mass[c], n + " mass", st, absent < 0 ? -1 : absent + 1);
         for (int b = 0; b < el->bdr[c]->Size(); b++) fillBlocks(*(*el->bdr[c])[b], n + " boundary " + I(b), st, absent < 0 ? -1 : absent + b);
      }
      for (int p = 0; p < th->GetNumRefPorts(); p++) fillBlocks(*el->port[p], tag + portName(*th, p), st, absent < 0 ? -1 : absent + p);
   }
   void compare(const Store &st)
   {
      for (int c = 0; c < th->GetNumComponents(); c++)
      {
         const S n = th->GetComponentName(c);
         eqBlocks(*el->comp[c], n + " domain", st, bs); eqBlocks(*el->mass[c], n + " mass", st, bs);
         sx::check(el->bdr[c]->Size() == th->GetComponentMesh(c)->bdr_attributes.Size(), n + ": boundaries");
         for (int b = 0; b < el->bdr[c]->Size(); b++) eqBlocks(*(*el->bdr[c])[b], n + " boundary " + I(b), st, bs);
      }
      sx::check(el->port.Size() == th->GetNumRefPorts(), "ports");
      for (int p = 0; p < th->GetNumRefPorts(); p++) eqBlocks(*el->port[p], portName(*th, p), st, 2 * bs);
   }
};
static const std::vector<Cell> WHOLE = {{0, 0, 0}, {1, 1, 0}, {2, 2, 0}, {1, 0, 1}, {0, 1, 1}};
static void trip(const World &from, const World &to, int nvar, bool sep, int absent, bool used)
{
   Store st, old;
   { Elems a(from, nvar, sep); a.fill(st, "", absent); a.el->Save("rom.h5"); a.compare(st); }
   Elems b(to, nvar, sep); if (used) b.fill(old, "old ", -1);
   b.el->Load("rom.h5"); b.compare(st);
}
SX_CASE(same_composition) { const int s = sx::choose("variables", 0, 2); trip(grid(WHOLE, {0, 1, 2}, false), grid(WHOLE, {0, 1, 2}, false), s ? 2 : 1, s == 2, sx::choose("absent", -1, 2), sx::choose("used", 0, 1)); }
SX_CASE(other_order)
{
   static const std::vector<int> o[] = {{2, 1, 0}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}};
   trip(grid(WHOLE, o[sx::choose("saved order", 0, 3)], sx::choose("saved ports reversed", 0, 1)), grid(WHOLE, o[sx::choose("order", 0, 3)], sx::choose("ports reversed", 0, 1)), 1, false, sx::choose("absent", -1, 0), false);
}
SX_CASE(part_of_composition)
{
   static const std::vector<Cell> part[] = {{{1, 0, 0}, {2, 1, 0}}, {{0, 0, 0}, {1, 0, 1}}, {{1, 0, 0}, {0, 1, 0}, {1, 2, 0}, {2, 3, 0}}, {{1, 5, 0}}};
   static const std::vector<int> ord[] = {{2, 1}, {1, 0}, {2, 0, 1}, {1}};
   const int k = sx::choose("part", 0, 3);
   trip(grid(WHOLE, {0, 1, 2}, false), grid(part[k], ord[k], sx::choose("reversed", 0, 1)), 2, sx::choose("separate", 0, 1), sx::choose("absent", -1, 2), sx::choose("used", 0, 1));
}
SX_CASE(merged_boundary) { const int m = sx::choose("merged", 0, 1) * 2; static const std::vector<Cell> c = {{0, 0, 0}, {1, 1, 0}, {2, 2, 0}}; trip(grid(c, {0, 1, 2}, false, false, m), grid(c, {1, 2, 0}, false, false, m), 1, false, -1, sx::choose("used", 0, 1)); }
SX_CASE(flipped_ports) { trip(grid(WHOLE, {0, 1, 2}, false, true), grid(WHOLE, {2, 0, 1}, true, true), 1, false, 0, true); }
SX_CASE(saved_twice)
{
   // the later collection replaces the former in the file
   Store st, s2; World w = grid(WHOLE, {0, 1, 2}, false), v = grid({{1, 0, 0}, {2, 1, 0}}, {2, 1}, false);
   { Elems a(w, 1, false); a.fill(s2, "first ", -1); a.el->Save("rom.h5"); }
   { Elems a(v, 1, false); a.fill(st, "", 1); a.el->Save("rom.h5"); }
   Elems b(v, 1, false); b.el->Load("rom.h5"); b.compare(st);
}
SX_CASE(not_in_file)
{
   // what the file does not hold is refused, never filled with something else
   const int k = sx::choose("what", 0, 5); Store st;
   const World w = grid({{0, 0, 0}, {1, 1, 0}, {2, 2, 0}}, {0, 1, 2}, false);
   World v = k == 0 ? grid({{0, 0, 0}, {1, 1, 0}, {2, 2, 0}, {3, 3, 0}}, {0, 1, 2, 3}, false)   // more components
             : k == 1 ? grid({{3, 0, 0}}, {3}, false)                                           // another component
             : k == 2 ? grid({{1, 0, 0}, {0, 1, 0}}, {0, 1}, false)                             // another port
             : k == 3 ? grid({{0, 0, 0}, {1, 1, 0}}, {0, 1}, false, true)                       // the port seen from the other side
             : k == 4 ? grid({{0, 0, 0}, {1, 1, 0}, {2, 2, 0}}, {0, 1, 2}, false, false, 0)     // another number of boundaries
             : grid({{0, 0, 0}, {1, 0, 1}}, {0, 1}, false);                                     // other sides of the same components
   { Elems a(w, 1, false); a.fill(st, "", -1); a.el->Save("rom.h5"); }
   Elems b(v, 1, false);
   sx::check(sx::rejects([&] { b.el->Load("rom.h5"); }), "a file without the needed operators is refused");
}
SX_CASE(refused)
{
   Elems *a = new Elems(grid({{0, 0, 0}, {1, 1, 0}}, {0, 1}, false), 1, false);
   sx::check(sx::rejects([&] { a->el->Load("absent.h5"); }), "an absent file is refused");
   Array<FiniteElementSpace *> odd(3); odd = NULL;
   sx::check(sx::rejects([&] { new ROMLinearElement(a->th.get(), odd, false); }), "spaces that do not match the components are refused");
   Mesh m = Mesh::MakeCartesian2D(2, 1, Element::QUADRILATERAL); m.SetAttribute(1, 2); m.SetAttributes();
   SubMeshTopologyHandler sh(&m); Array<FiniteElementSpace *> two(2); two = NULL;
   sx::check(sx::rejects([&] { new ROMLinearElement(&sh, two, false); }), "only composed domains have component-wise operators");
}
