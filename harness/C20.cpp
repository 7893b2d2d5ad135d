// Sampling plan, collection of snapshots, and the port records that pair them
#include "h.hpp"
#include "input_parser.hpp"
#include "linalg_utils.hpp"
#include "sample_generator.hpp"
#include "random_sample_generator.hpp"
#include "main_workflow.hpp"
#include <unistd.h>
static int g_draw = 0;
extern "C" double __wrap__Z13UniformRandomv() { double u = sx::real("u" + std::to_string(g_draw++), 0.0, 1.0); sx::assume(u < 1.0); return u; }
extern "C" int __wrap__Z13UniformRandomRKiS0_(const int *a, const int *b) { const int lo = *a, hi = *b; int r = sx::integer("r" + std::to_string(g_draw++), -1000, 1000); sx::assume(lo <= r); sx::assume(r <= hi); return sx_concrete(r); }
extern "C" void __wrap_exit(int) { abort(); }
template <class G> struct Gen : public G
{
   Gen() : G(MPI_COMM_WORLD) {}
   void ranks(int n) { this->num_procs = n; this->DistributeSamples(); }
   void rank(int r) { this->proc_rank = r; }
};
static S plan(int np, const int *n, const S &more = "")
{
   S s = "{parameterized_problem: {name: prob}, sample_generation: {" + more + "parameters: [";
   for (int p = 0; p < np; p++) s += S(p ? ", " : "") + (p == 0 ? "{key: a/x, type: double, minimum: 1.0, maximum: 3.0" : p == 1 ? "{key: b, type: integer, minimum: -2, maximum: 10" : "{key: a/f, type: filename, minimum: 0, maximum: 12, format: m%03d.h5") + ", sample_size: " + I(n[p]) + "}";
   return s + "]}}";
}
// ---- numbering of the grid of samples, and who computes which
SX_CASE(grid)
{
   const int np = sx::choose("parameters", 1, 3); int n[3]; for (int p = 0; p < 3; p++) n[p] = p < np ? sx::choose("size" + I(p), 1, p == 0 ? 4 : 3) : 1; const int total = n[0] * n[1] * n[2];
   config.dict_ = YAML::Load(plan(np, n)); Gen<SampleGenerator> g; g.SetParamSpaceSizes(); sx::check(g.GetTotalSampleSize() == total && g.GetNumSampleParams() == np && g.GetSampleSizes().Size() == np && g.GetType() == BASE, "number of samples");
   int i = sx::integer("sample", 0, total - 1); Array<int> a = g.GetSampleIndex(i); sx::check(a.Size() == np, "one index per parameter"); for (int p = 0; p < np; p++) sx::check(0 <= a[p] && a[p] < n[p], "index within the parameter's samples");
   sx::check(g.GetSampleIndex(a) == i, "sample number from the indices");
   Array<int> b(np); int row = 0; for (int p = 0; p < np; p++) { b[p] = sx::integer("idx" + I(p), 0, n[p] - 1); row = row * n[p] + b[p]; } const int k = g.GetSampleIndex(b); sx::check(k == row, "row-major numbering"); Array<int> c = g.GetSampleIndex(k); for (int p = 0; p < np; p++) sx::check(c[p] == b[p], "indices from the sample number");
}
SX_CASE(ranks)
{
   const int procs = sx::choose("processes", 1, 5), random = sx::choose("random", 0, 1); int n[1] = {sx::choose("samples", 1, 9)}; config.dict_ = YAML::Load(plan(1, n, "random_sample_generator: {number_of_samples: " + I(n[0]) + "}, "));
   auto check = [&](auto &g) { g.SetParamSpaceSizes(); sx::check(g.GetTotalSampleSize() == n[0], "number of samples"); int i = sx::integer("sample", 0, n[0] - 1), who = 0; Array<int> a(1); a[0] = i; g.ranks(procs); for (int r = 0; r < procs; r++) { g.rank(r); const bool m = g.IsMyJob(i); who += m; sx::check(g.IsMyJob(a) == m, "same by indices"); } sx::check(who == 1, "every sample belongs to exactly one process"); };
   if (random) { Gen<RandomSampleGenerator> g; check(g); sx::check(g.GetType() == RANDOM, "type"); } else { Gen<SampleGenerator> g; check(g); }
}
SX_CASE(parameters_of_a_sample)
{
   const int np = 3, n[3] = {sx::choose("size0", 1, 3), sx::choose("size1", 1, 3), 2}, total = n[0] * n[1] * n[2]; config.dict_ = YAML::Load(plan(np, n)); const double lo = sx::real("minimum", -2, 2), hi = lo + sx::real("range", 0, 3); YAML::Node q = config.dict_["sample_generation"]["parameters"][0]; q["minimum"] = lo; q["maximum"] = hi;
   Gen<SampleGenerator> g; g.SetParamSpaceSizes(); const int i = sx::choose("sample", 0, 17); if (i >= total) return; const bool nested = sx::choose("by indices", 0, 1); Array<int> a(3); a[2] = i % n[2]; a[1] = i / n[2] % n[1]; a[0] = i / n[2] / n[1];
   for (int again = 0; again < 2; again++)   // an earlier sample leaves nothing behind
   {
      Array<int> e(a); if (!again) for (int p = 0; p < 3; p++) e[p] = n[p] - 1 - e[p];
      if (nested) g.SetSampleParams(e); else g.SetSampleParams((e[0] * n[1] + e[1]) * n[2] + e[2]);
      sx::eq(config.GetRequiredOption<double>("a/x"), n[0] == 1 ? lo : lo + e[0] * (hi - lo) / (n[0] - 1), "first parameter"); sx::check(config.GetRequiredOption<int>("b") == -2 + (n[1] == 1 ? 0 : e[1] * 12 / (n[1] - 1)), "second parameter"); sx::check(config.GetRequiredOption<S>("a/f") == (e[2] ? "m012.h5" : "m000.h5"), "third parameter");
   }
   sx::check(config.GetRequiredOption<S>("parameterized_problem/name") == "prob" && config.dict_.size() == 4, "other options kept");
}
SX_CASE(random_samples)
{
   int n[3] = {1, 1, 1}; config.dict_ = YAML::Load(plan(3, n, "random_sample_generator: {number_of_samples: 4}, ")); config.dict_["sample_generation"]["parameters"][1]["maximum"] = 1; config.dict_["sample_generation"]["parameters"][2]["maximum"] = 2; Gen<RandomSampleGenerator> g; g.SetParamSpaceSizes(); sx::check(g.GetTotalSampleSize() == 4, "number of samples"); g_draw = 0;
   const int i = sx::choose("sample", 0, 3); Array<int> a = g.GetSampleIndex(i); for (int p = 0; p < 3; p++) sx::check(a[p] == i, "index of a random sample"); sx::check(g.GetSampleIndex(a) == i, "number of a random sample");
   g.SetSampleParams(i); const double x = config.GetRequiredOption<double>("a/x"); sx::eq(x, 1.0 + 2.0 * sx::real("u0", 0, 1), "first parameter drawn"); sx::check(config.GetRequiredOption<int>("b") == sx::integer("r1", -1000, 1000), "second parameter drawn"); sx::check(config.GetRequiredOption<S>("a/f") == "m00" + I(sx_concrete(sx::integer("r2", -1000, 1000))) + ".h5", "third parameter drawn");
}
// ---- snapshots: which matrix, which column, which pairs
struct Topo : public TopologyHandler
{
   Topo(const std::vector<int> &types) : TopologyHandler(TopologyHandlerMode::COMPONENT)
   { numSub = types.size(); num_comp = 3; mesh_types.SetSize(numSub); for (int m = 0; m < numSub; m++) mesh_types[m] = types[m]; comp_names = {"alpha", "beta", "gamma"}; port_infos.SetSize(0); for (int m = 0; m + 1 < numSub; m++) { PortInfo p; p.PortAttr = 7 + m; p.Mesh1 = m % 2 ? m + 1 : m; p.Mesh2 = m % 2 ? m : m + 1; p.Attr1 = m % 2 ? 4 : 2; p.Attr2 = m % 2 ? 2 : 4; port_infos.Append(p); } num_ports = numSub - 1; }
   Mesh *GetMesh(const int) override { return nullptr; }
   Mesh *GetGlobalMesh() override { return nullptr; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override {}
   void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override {}
};
static const char *COMP[] = {"alpha", "beta", "gamma"};
static int dimOf(int c, int v) { return 1 + (c + v) % 2 + v; }
struct Book   // what must be found afterwards
{
   int nv; bool sep; std::map<S, std::vector<std::vector<double>>> col; struct Pair { std::vector<std::vector<double>> a, b; }; std::map<S, std::vector<Pair>> pairs; std::map<S, PortTag> tags; std::map<S, BasisTag> bt;
   static S key(const PortTag &t) { return t.Mesh1 + "/" + t.Mesh2 + "/" + I(t.Attr1) + "/" + I(t.Attr2); }
   BasisTag tag(int c, int v) { return sep ? BasisTag(COMP[c], v ? "pres" : "vel") : BasisTag(COMP[c]); }
};
static const std::vector<int> LAYOUT[] = {{0}, {0, 1}, {0, 0}, {1, 0, 1}, {0, 1, 0, 1}, {2, 0}};
static void take(SampleGenerator &g, Book &b, int layout, const S &name)
{
   const std::vector<int> &ty = LAYOUT[layout]; Topo t(ty); const int nb = b.sep ? b.nv : 1; Array<int> off; off.Append(0); std::vector<BasisTag> tags; for (int c : ty) for (int v = 0; v < nb; v++) { int d = 0; if (b.sep) d = dimOf(c, v); else for (int w = 0; w < b.nv; w++) d += dimOf(c, w); off.Append(off.Last() + d); tags.push_back(b.tag(c, v)); }
   BlockVector U(off); for (int i = 0; i < U.Size(); i++) U[i] = sx::real(name + "_" + I(i)); Array<int> ci; g.SaveSnapshot(&U, tags, ci); sx::check(ci.Size() == (int)tags.size(), "one column per block");
   std::vector<std::vector<std::vector<double>>> blk(ty.size());
   for (int m = 0; m < (int)ty.size(); m++) for (int v = 0; v < nb; v++) { const int k = m * nb + v; std::vector<double> x; for (int i = off[k]; i < off[k + 1]; i++) x.push_back(U[i]); auto &c = b.col[tags[k].print()]; b.bt[tags[k].print()] = tags[k]; sx::check(ci[k] == (int)c.size(), "column of the snapshot"); c.push_back(x); blk[m].push_back(x); }
   g.SaveSnapshotPorts(&t, ci); for (int i = 0; i < U.Size(); i++) U[i] = 55.0;   // the snapshots are copies
   for (int p = 0; p < t.GetNumPorts(); p++) { const PortInfo *q = t.GetPortInfo(p); PortTag pt = {COMP[ty[q->Mesh1]], COMP[ty[q->Mesh2]], q->Attr1, q->Attr2}; b.tags[Book::key(pt)] = pt; b.pairs[Book::key(pt)].push_back({blk[q->Mesh1], blk[q->Mesh2]}); }
}
static void compare(SampleGenerator &g, Book &b, const S &l)
{
   std::map<S, std::shared_ptr<const CAROM::Matrix>> M;
   for (auto &e : b.col) { auto m = g.LookUpSnapshot(b.bt[e.first]); M[e.first] = m; sx::check(m->numColumns() == (int)e.second.size() && m->numRows() == (int)e.second[0].size(), l + ": size of the snapshot matrix of " + e.first); for (int j = 0; j < m->numColumns(); j++) for (int i = 0; i < m->numRows(); i++) sx::eq(m->item(i, j), e.second[j][i], l + ": snapshots of " + e.first); }
   for (auto &e : b.pairs)
   {
      const PortTag &pt = b.tags[e.first]; Array2D<int> *c = g.LookUpSnapshotPortColOffsets(pt); sx::check(c->NumRows() == (int)e.second.size() && c->NumCols() == 2, l + ": pairs of port " + e.first);
      for (int r = 0; r < c->NumRows(); r++) for (int side = 0; side < 2; side++) for (int v = 0; v < (b.sep ? b.nv : 1); v++)
      { const S tg = BasisTag(side ? pt.Mesh2 : pt.Mesh1, b.sep ? v ? "pres" : "vel" : "").print(); auto &x = (side ? e.second[r].b : e.second[r].a)[v]; const int k = (*c)(r, side); sx::check(k >= 0 && k < M[tg]->numColumns(), l + ": column of a pair"); for (int i = 0; i < (int)x.size(); i++) sx::eq(M[tg]->item(i, k), x[i], l + ": the state on side " + I(side) + " of port " + e.first); }
   }
}
static Book book() { Book b; b.nv = sx::choose("variables", 1, 2); b.sep = b.nv > 1 && sx::choose("separate", 0, 1); return b; }
static void conf(const S &prefix, const S &more = "") { int n[1] = {3}; config.dict_ = YAML::Load(plan(1, n, "file_path: {prefix: " + prefix + "}, maximum_number_of_snapshots: 20, ")); if (more.size()) { YAML::Node m = YAML::Load(more); for (auto i : m) config.dict_[i.first.as<S>()] = i.second; } }
SX_CASE(snapshots)
{
   conf("run"); Book b = book(); Gen<SampleGenerator> g; sx::check(g.GetSamplePrefix() == "./run_sample", "prefix"); const int n = sx::choose("samples", 1, 3); for (int s = 0; s < n; s++) take(g, b, sx::choose("layout" + I(s), 0, s < 2 ? 5 : 1), "s" + I(s)); compare(g, b, "taken");
   sx::check(sx::rejects([&] { g.LookUpSnapshot(BasisTag("delta")); }) && sx::rejects([&] { g.LookUpSnapshot(BasisTag(COMP[0], "temp")); }), "unknown tag is refused"); PortTag pt = {"alpha", "alpha", 9, 4}; if (b.pairs.size()) sx::check(sx::rejects([&] { g.LookUpSnapshotPortColOffsets(pt); }), "unknown port is refused");
}
static void append(Book &a, const Book &b) { for (auto &e : b.col) { auto &c = a.col[e.first]; c.insert(c.end(), e.second.begin(), e.second.end()); } for (auto &e : b.pairs) { auto &c = a.pairs[e.first]; c.insert(c.end(), e.second.begin(), e.second.end()); } for (auto &e : b.tags) a.tags[e.first] = e.second; for (auto &e : b.bt) a.bt[e.first] = e.second; }
static void written(const S &prefix, Book &b, int first, int second) { conf(prefix); Gen<SampleGenerator> g; take(g, b, first, prefix + "A"); if (second >= 0) take(g, b, second, prefix + "B"); g.WriteSnapshots(); g.WriteSnapshotPorts(); compare(g, b, "kept after writing"); }
// several runs, each in its own files, put together
SX_CASE(collect_by_port)
{
   Book all = book(), one = all, two = all; const int l1 = sx::choose("layout1", 1, 5), l2 = sx::choose("layout2", 1, 5), runs = sx::choose("runs", 1, 2), how = sx::choose("how", 0, 2); S a = "run", b = "run"; if (how == 1 || runs == 2) { a = "run1"; b = "run2"; }
   written(a, one, l1, sx::choose("more", -1, 1)); append(all, one); if (runs == 2) { written(b, two, l2, 3); append(all, two); }
   S files = runs == 2 ? how == 1 ? "port_fileformat: {minimum: 1, maximum: 2, format: \"./run%d_sample.port.h5\"}" : "port_files: [./run1_sample.port.h5, ./run2_sample.port.h5]" : how == 1 ? "port_files: [./run1_sample.port.h5]" : "";
   conf("run", "{sample_collection: {mode: port" + (files.size() ? ", " + files : S("")) + "}, basis: {prefix: base}}"); Gen<SampleGenerator> g; if (how == 2 && runs == 2) { g.CollectSnapshotsByPort("base", "./run1_sample.port.h5"); g.CollectSnapshotsByPort("base", "./run2_sample.port.h5"); } else CollectSamples(&g); compare(g, all, "collected");
}
SX_CASE(collect_by_basis)
{
   static const char *SOLVERS[] = {"stokes", "steady-ns", "unsteady-ns"}; Book b = book(), q1 = b, q2 = b; if (b.nv == 2 && !b.sep) return; const int listed = sx::choose("listed", 0, 3); written("run", b, 1, 4); if (listed) { written("old1", q1, 0, 2); written("old2", q2, 3, -1); }
   // alpha: own file list, a format or both; beta: default
   S t = b.sep ? "alpha_vel" : "alpha", l = listed & 1 ? ", snapshot_files: [./old1_sample_" + t + "_snapshot, ./run_sample_" + t + "_snapshot]" : S(""), f = listed & 2 ? ", snapshot_format: {minimum: 1, maximum: 2, format: \"./old%d_sample_" + t + "_snapshot\"}" : S("");
   conf("run", "{main: {solver: " + S(b.sep ? SOLVERS[sx::choose("solver", 0, 2)] : "poisson") + "}, mesh: {type: component-wise, component-wise: {components: [{name: alpha, file: x}, {name: beta, file: y}]}}, model_reduction: {separate_variable_basis: " + (b.sep ? "true" : "false") + "}, basis: {prefix: base, tags: [{name: " + t + ", number_of_basis: 2" + l + f + "}]}}");
   Gen<SampleGenerator> g; CollectSamples(&g); Book want = b; if (listed) { std::vector<std::vector<double>> r, old1 = q1.col[t], old2 = q2.col[t]; if (listed & 1) { r = old1; r.insert(r.end(), b.col[t].begin(), b.col[t].end()); } if (listed & 2) { r.insert(r.end(), old1.begin(), old1.end()); r.insert(r.end(), old2.begin(), old2.end()); } want.col[t] = r; } want.pairs.clear(); compare(g, want, "collected by basis");
}
SX_CASE(every_physics_has_tags)
{
   static const char *SOLVERS[] = {"poisson", "linelast", "adv-diff", "stokes", "steady-ns", "unsteady-ns"}; const int k = sx::choose("solver", 0, 5), sep = sx::choose("separate", 0, 1); config.dict_ = YAML::Load("{main: {solver: " + S(SOLVERS[k]) + "}, mesh: {component-wise: {components: [{name: alpha, file: x}, {name: beta, file: y}]}}}");
   std::vector<BasisTag> t = GetGlobalBasisTagList(TopologyHandlerMode::COMPONENT, sep), w; std::vector<S> v = k == 0 || k == 2 ? std::vector<S>{"solution"} : k == 1 ? std::vector<S>{"solution"} : std::vector<S>{"vel", "pres"};
   for (int c = 0; c < 2; c++) if (sep) for (S &x : v) w.push_back(BasisTag(COMP[c], x)); else w.push_back(BasisTag(COMP[c])); sx::check(t == w, "one tag per component and variable");
}
