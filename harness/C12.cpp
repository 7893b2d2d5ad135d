// The configuration: a tree of options addressed by paths.
#include "h.hpp"
#include "input_parser.hpp"
#include <fstream>
#include <sstream>
#include <cstring>
using std::string;

extern "C" void __wrap_exit(int) { abort(); }
// MPI as seen by one rank: what the root broadcasts is recorded and handed to the other ranks
static bool g_mpi = false, g_agree = true;
static int g_rank = 0;
static std::vector<std::pair<long, string>> g_sent;
static size_t g_recv = 0;
static size_t width(MPI_Datatype t) { return t == MPI_INT ? sizeof(int) : t == MPI_DOUBLE ? sizeof(double) : t == MPI_LONG || t == MPI_UNSIGNED_LONG ? sizeof(long) : 1; }
extern "C" int __wrap_MPI_Initialized(int *flag) { *flag = g_mpi; return 0; }
extern "C" int __wrap_MPI_Comm_rank(MPI_Comm, int *r) { *r = g_rank; return 0; }
extern "C" int __wrap_MPI_Comm_size(MPI_Comm, int *r) { *r = 2; return 0; }
extern "C" int __wrap_MPI_Bcast(void *buf, int count, MPI_Datatype t, int root, MPI_Comm)
{
   if (root != 0) { g_agree = false; return 0; }
   if (g_rank == 0) { g_sent.push_back({count * (long)width(t), string((char *)buf, count * width(t))}); return 0; }
   if (g_recv >= g_sent.size() || g_sent[g_recv].first != (long)(count * width(t))) { g_agree = false; g_recv++; return 0; }
   memcpy(buf, g_sent[g_recv].second.data(), count * width(t));
   g_recv++;
   return 0;
}

static InputParser parser(const char *s = "{}") { InputParser p; p.dict_ = YAML::Load(s); return p; }
static string dump(const InputParser &p) { return YAML::Dump(p.dict_); }
static const char *KEYS[] = {"a", "b/c", "b/d", "e/f/g", "e/f/h", "e/i"};
static const int NK = 6;
static string text(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

// any history of settings: every option reads as it was last set, all others keep the fallback
SX_CASE(set_get)
{
   const int n = sx::choose("len", 1, 3);
   InputParser p = parser();
   std::vector<int> last(NK, -1);
   for (int t = 0; t < n; t++)
   {
      int k = sx::choose("key" + std::to_string(t), 0, NK - 1);
      p.SetOption<double>(KEYS[k], sx::real("v" + std::to_string(t), -100, 100));
      last[k] = t;
   }
   const string before = dump(p);
   double fb = sx::real("fallback", -100, 100);
   for (int k = 0; k < NK; k++)
   {
      const string K = KEYS[k];
      sx::check(bool(p.FindNode(K)) == (last[k] >= 0), "exists exactly when set: " + K);
      sx::eq(p.GetOption<double>(K, fb), last[k] >= 0 ? sx::real("v" + std::to_string(last[k]), -100, 100) : fb, "option " + K);
      if (last[k] >= 0) sx::eq(p.GetRequiredOption<double>(K), sx::real("v" + std::to_string(last[k]), -100, 100), "required " + K);
      else sx::check(sx::rejects([&]() { p.GetRequiredOption<double>(K); }), "required option missing is refused: " + K);
   }
   sx::check(dump(p) == before, "reading changes nothing");
}
// values of every type read back as they were set, next to other options
SX_CASE(types)
{
   InputParser p = parser("{x: {keep: 5}, list: [1, 2]}");
   const int n = sx::choose("n", 1, 3);
   Vector v(n); Array<double> w(n); Array<int> a(n); std::vector<string> s(n);
   for (int k = 0; k < n; k++) { v[k] = sx::real("v" + std::to_string(k), -9, 9); w[k] = -2.0 * v[k]; a[k] = sx::integer("a" + std::to_string(k), -5000, 5000); s[k] = "name" + std::to_string(k); }
   int i = sx::integer("i", -1000000, 1000000);
   bool b = sx::choose("b", 0, 1);
   p.SetOption<Vector>("x/v", v); p.SetOption<Array<double>>("x/w", w); p.SetOption<Array<int>>("x/y/a", a);
   p.SetOption<std::vector<string>>("s", s); p.SetOption<int>("x/i", i); p.SetOption<bool>("x/b", b); p.SetOption<string>("x/t", "text with = and :");
   Vector v2 = p.GetRequiredOption<Vector>("x/v");
   Array<double> w2 = p.GetRequiredOption<Array<double>>("x/w");
   Array<int> a2 = p.GetRequiredOption<Array<int>>("x/y/a");
   std::vector<string> s2 = p.GetRequiredOption<std::vector<string>>("s");
   sx::check(v2.Size() == n && w2.Size() == n && a2.Size() == n && (int)s2.size() == n, "sizes");
   for (int k = 0; k < n; k++)
   {
      sx::eq(v2[k], v[k], "vector entry"); sx::eq(w2[k], w[k], "array entry");
      sx::check(a2[k] == a[k], "integer array entry"); sx::check(s2[k] == s[k], "string entry");
   }
   sx::check(p.GetRequiredOption<int>("x/i") == i && p.GetRequiredOption<bool>("x/b") == b && p.GetRequiredOption<string>("x/t") == "text with = and :", "scalars");
   sx::check(p.GetRequiredOption<int>("x/keep") == 5 && p.GetRequiredOption<Array<int>>("list").Size() == 2, "others kept");
   // overwritten by something shorter
   Vector one(1); one[0] = v[n - 1];
   p.SetOption<Vector>("x/v", one);
   Vector v3 = p.GetRequiredOption<Vector>("x/v");
   sx::check(v3.Size() == 1, "size after overwriting"); sx::eq(v3[0], v[n - 1], "entry after overwriting");
   // a fallback is only used when the option is absent
   sx::check(p.GetOption<int>("x/i", 77) == i && p.GetOption<int>("x/j", 77) == 77, "fallback");
   sx::check(p.GetOption<std::vector<string>>("none/s", s).size() == s.size(), "fallback list");
}
SX_CASE(wrong_types)
{
   InputParser p = parser("{scalar: 3, map: {a: 1}, seq: [1.5, 2.5], words: [a, b], empty: []}");
   sx::check(sx::rejects([&]() { p.GetRequiredOption<Vector>("scalar"); }), "scalar is no vector");
   sx::check(sx::rejects([&]() { p.GetOption<Vector>("map", Vector(1)); }), "map is no vector");
   sx::check(sx::rejects([&]() { p.GetRequiredOption<Array<int>>("map"); }), "map is no array");
   sx::check(sx::rejects([&]() { p.GetOption<Array<int>>("scalar", Array<int>(1)); }), "scalar is no array");
   sx::check(sx::rejects([&]() { p.GetRequiredOption<std::vector<string>>("scalar"); }), "scalar is no list of strings");
   sx::check(sx::rejects([&]() { p.GetRequiredOption<Vector>("words"); }), "words are no numbers");
   sx::check(sx::rejects([&]() { p.GetRequiredOption<double>("seq"); }), "sequence is no number");
   sx::check(sx::rejects([&]() { p.GetOption<int>("words", 1); }), "sequence is no integer");
   sx::check(p.GetRequiredOption<Vector>("empty").Size() == 0 && p.GetRequiredOption<Array<int>>("empty").Size() == 0 && p.GetRequiredOption<std::vector<string>>("empty").empty(), "empty sequences");
   sx::check(p.GetRequiredOption<std::vector<string>>("words")[1] == "b", "list of words");
}
// options inside a part of the tree: the part is a view of the whole
SX_CASE(sub_tree)
{
   InputParser p = parser("{mesh: {name: m, size: {x: 1}}, other: 1}");
   YAML::Node sub = p.FindNode("mesh");
   double v = sx::real("v", -5, 5), w = sx::real("w", -5, 5);
   p.SetOptionInDict<double>("size/y", v, sub);
   sx::eq(p.GetRequiredOption<double>("mesh/size/y"), v, "written through the view");
   p.SetOption<double>("mesh/size/y", w);
   sx::eq(p.GetRequiredOptionFromDict<double>("size/y", sub), w, "seen through the view");
   sx::check(p.GetRequiredOption<int>("mesh/size/x") == 1 && p.GetRequiredOption<string>("mesh/name") == "m" && p.GetRequiredOption<int>("other") == 1, "others kept");
   sx::eq(p.GetOptionFromDict<double>("size/z", v, sub), v, "fallback in view");
   sx::check(sx::rejects([&]() { p.GetRequiredOptionFromDict<double>("mesh/size/y", sub); }), "paths are relative to the view");
   const string before = dump(p);
   YAML::Node none = p.FindNode("mesh/new/deep");
   sx::check(!none && dump(p) == before, "searching creates nothing");
   YAML::Node made = p.FindNode("mesh/new/deep", true);
   p.SetOption<double>("mesh/new/deep", v);
   sx::eq(p.GetRequiredOption<double>("mesh/new/deep"), v, "created");
   sx::check(p.GetRequiredOption<int>("mesh/size/x") == 1, "others kept after creating");
}
// options of the file, overridden in order by key=value pairs of the command line
static void file_and_forced(bool mpi)
{
   double x = sx::real("x", -9, 9), y = sx::real("y", -9, 9), z = sx::real("z", -9, 9);
   { std::ofstream f("in.yml"); f.precision(17); f << "a: " << x << "\nb:\n  c: " << y << "\n  d: keep\nseq:\n  - 1\n  - 2\n"; }
   static const char *FK[] = {"a", "b/c", "b/new", "n/m"};
   const int n = sx::choose("len", 0, 2);
   string forced; std::vector<double> val(4, 0.0); std::vector<int> set(4, 0);
   val[0] = x; val[1] = y; set[0] = set[1] = 1;
   for (int t = 0; t < n; t++)
   {
      int k = sx::choose("key" + std::to_string(t), 0, 3);
      double v = t ? z : x - y;
      forced += (t ? ":" : "") + string(FK[k]) + "=" + text(v);
      val[k] = v; set[k] = 1;
   }
   for (g_rank = 0; g_rank < (mpi ? 2 : 1); g_rank++)
   {
      g_mpi = mpi; if (g_rank == 0) g_sent.clear(); g_recv = 0;
      InputParser p("in.yml", forced);
      for (int k = 0; k < 4; k++)
      {
         sx::check(bool(p.FindNode(FK[k])) == (set[k] != 0), string("exists: ") + FK[k]);
         if (set[k]) sx::eq(p.GetRequiredOption<double>(FK[k]), val[k], string("value: ") + FK[k]);
      }
      sx::check(p.GetRequiredOption<string>("b/d") == "keep" && p.GetRequiredOption<Array<int>>("seq").Size() == 2, "the rest of the file is kept");
      if (mpi && g_rank) sx::check(g_recv == g_sent.size(), "ranks take part in the same broadcasts");
   }
   g_rank = 0; g_mpi = false;
   sx::check(g_agree, "ranks agree on what is broadcast");
}
SX_CASE(forced_input) { file_and_forced(false); }
SX_CASE(forced_input_ranks) { file_and_forced(true); }
// all ranks get the same configuration, however long the file is
SX_CASE(ranks_short_files)
{
   const int n = sx::choose("chars", 1, 40);
   { std::ofstream f("in.yml"); f << "k: " << string(n, 'v') << "\n"; }
   g_mpi = true;
   for (g_rank = 0; g_rank < 2; g_rank++)
   {
      if (g_rank == 0) g_sent.clear(); g_recv = 0;
      InputParser p("in.yml");
      sx::check(p.GetOption<string>("k", "") == string(n, 'v'), g_rank ? "other rank" : "root");
   }
   g_mpi = false; g_rank = 0;
   sx::check(g_agree, "ranks agree on what is broadcast");
}
SX_CASE(malformed_forced)
{
   { std::ofstream f("in.yml"); f << "a: 1\nb: {c: 2}\n"; }
   static const char *bad[] = {"a", "a=", "=", "=5", "a=1=2", "a==1", "a=1:b", "a=1:b/c=", "a=1:=2", "a=1::b/c=2"};
   for (const char *s : bad) sx::check(sx::rejects([&]() { InputParser p("in.yml", s); }), string("refused: ") + s);
   static const char *good[] = {"", "a=3", "a=3:b/c=4", "b/c=[1, 2]", "a=3:a=4"};
   for (const char *s : good) sx::check(!sx::rejects([&]() { InputParser p("in.yml", s); }), string("accepted: ") + s);
   InputParser p("in.yml", "b/c=[1.5, 2.5]:t=some words:u=true");
   Vector v = p.GetRequiredOption<Vector>("b/c");
   sx::check(v.Size() == 2 && v[1] == 2.5, "lists can be forced");
   sx::check(p.GetRequiredOption<string>("t") == "some words" && p.GetRequiredOption<bool>("u") && p.GetRequiredOption<int>("a") == 1, "words, flags and the rest");
   sx::check(sx::rejects([&]() { InputParser q("missing.yml"); }), "missing file");
}
// the entry of a list whose key has the wanted value
SX_CASE(look_up)
{
   InputParser p = parser("{list: []}");
   const int n = sx::choose("n", 0, 3);
   std::vector<double> key(3), val(3); std::vector<int> has(3), hasv(3);
   for (int k = 0; k < n; k++)
   {
      YAML::Node e;
      has[k] = k == 1 ? sx::choose("has", 0, 1) : 1; hasv[k] = k == 2 ? sx::choose("hasv", 0, 1) : 1;
      key[k] = sx::real("key" + std::to_string(k), -3, 3); val[k] = sx::real("val" + std::to_string(k), -3, 3);
      if (has[k]) e["at"]["x"] = key[k];
      if (hasv[k]) e["out"]["v"] = val[k];
      e["id"] = k;
      p.dict_["list"].push_back(e);
   }
   double want = sx::real("want", -3, 3), def = sx::real("def", -3, 3);
   int hit = -1;
   for (int k = 0; k < n && hit < 0; k++) if (has[k] && key[k] == want) hit = k;
   YAML::Node list = p.FindNode("list");
   YAML::Node e = p.LookUpFromDict<double>("at/x", want, list);
   sx::check(bool(e) == (hit >= 0), "found exactly when present");
   if (hit >= 0 && e) sx::check(e["id"].as<int>() == hit, "first match");
   double r = p.LookUpFromDict<double, double>("at/x", want, "out/v", def, list);
   sx::eq(r, hit >= 0 && hasv[hit] ? val[hit] : def, "value of the first match or the default");
}
SX_CASE(look_up_by_name)
{
   InputParser p = parser("{list: [{name: u, n: 3, s: [a, b]}, {n: 9}, {name: v, n: 4}, {name: u, n: 5}]}");
   int def = sx::integer("def", -10, 10);
   YAML::Node list = p.FindNode("list");
   sx::check(p.LookUpFromDict<string, int>("name", "v", "n", def, list) == 4, "by name");
   sx::check(p.LookUpFromDict<string, int>("name", "u", "n", def, list) == 3, "first of two");
   sx::check(p.LookUpFromDict<string, int>("name", "w", "n", def, list) == def, "absent name");
   sx::check(p.LookUpFromDict<string, int>("name", "v", "m", def, list) == def, "absent value");
   sx::check((p.LookUpFromDict<int, string>("n", 9, "name", "none", list)) == "none", "entry without the value");
   sx::check((p.LookUpFromDict<int, string>("n", 5, "name", "none", list)) == "u", "by number");
   YAML::Node v = p.LookUpFromDict<string>("name", "v", list);
   sx::check(v && v["n"].as<int>() == 4, "entry by name");
   sx::check(!p.LookUpFromDict<string>("name", "w", list), "no entry");
   sx::check(list.size() == 4 && list[1].size() == 1, "searching changes nothing");
}
