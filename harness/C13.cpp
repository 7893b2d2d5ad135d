// Parameter sampling: grids and random draws written into the configuration.
#include "h.hpp"
#include "parameter.hpp"
#include "etc.hpp"
using std::string;

// the random source: any value the generator may deliver
static int g_draw = 0;
static bool g_concrete = false;
extern "C" double __wrap__Z13UniformRandomv() { double u = sx::real("u" + std::to_string(g_draw++), 0.0, 1.0); sx::assume(u < 1.0); return u; }
extern "C" int __wrap__Z13UniformRandomRKiS0_(const int *a, const int *b)
{
   const int lo = *a, hi = *b;
   int r = sx::integer("r" + std::to_string(g_draw++), -100000, 100000);
   sx::assume(lo <= r);
   sx::assume(r <= hi);
   return g_concrete ? sx_concrete(r) : r;
}
extern "C" void __wrap_exit(int) { abort(); }

static InputParser parser()
{
   InputParser p;
   p.dict_ = YAML::Load("{}");
   return p;
}
template <class T> static YAML::Node range(T lo, T hi)
{
   YAML::Node n;
   n["minimum"] = lo; n["maximum"] = hi;
   return n;
}
// values of the whole grid, each read back from a fresh configuration that holds other options as well
template <class T, class P> static std::vector<T> grid(P &par, const string &key, int n)
{
   par.SetSize(n);
   std::vector<T> v;
   for (int k = 0; k < n; k++)
   {
      InputParser p = parser();
      p.SetOption<int>("problem/other", 7);
      p.SetOption<string>("problem/name", "abc");
      p.SetOption<int>("tolerance", 3);
      if (k % 2) p.SetOption<double>(key, 123.0);
      par.SetParam(k, p);
      v.push_back(p.GetRequiredOption<T>(key));
      sx::check(p.GetRequiredOption<int>("problem/other") == 7 && p.GetRequiredOption<string>("problem/name") == "abc" && p.GetRequiredOption<int>("tolerance") == 3, "other options kept");
      sx::check(p.dict_.size() == (key.compare(0, 8, "problem/") ? 3u : 2u), "no other option created");
   }
   return v;
}
static string L(const char *s, int n, int k) { return string(s) + " n" + std::to_string(n) + " k" + std::to_string(k); }

SX_CASE(double_linear)
{
   const int n = sx::choose("n", 1, 5);
   double lo = sx::real("lo", -4, 4), d = sx::real("d", 0, 8), hi = lo + d;
   DoubleParam par("problem/mu", range(lo, hi));
   sx::check(par.GetKey() == "problem/mu", "key");
   std::vector<double> v = grid<double>(par, "problem/mu", n);
   sx::check(par.GetSize() == n, "size");
   sx::eq(v[0], lo, L("first", n, 0));
   if (n > 1) sx::eq(v[n - 1], hi, L("last", n, n - 1));
   for (int k = 1; k + 1 < n; k++) sx::eq(v[k + 1] - v[k], v[k] - v[k - 1], L("even", n, k));
   for (int k = 0; k < n; k++)
   {
      sx::check(v[k] >= lo - 1e-9, L("above minimum", n, k));
      sx::check(v[k] <= hi + 1e-9, L("below maximum", n, k));
   }
}
// the grid does not depend on the order in which it is visited, on earlier sizes or on earlier draws
SX_CASE(double_linear_history)
{
   const int n = sx::choose("n", 2, 4), m = sx::choose("m", 1, 3), k = sx::choose("k", 0, 3);
   if (k >= n) return;
   double lo = sx::real("lo", -4, 4), hi = sx::real("hi", -4, 4);
   DoubleParam par("mu", range(lo, hi)), ref("mu", range(lo, hi));
   InputParser p = parser(), q = parser();
   par.SetSize(m); par.SetParam(m - 1, p); par.SetRandomParam(p);
   par.SetSize(n); par.SetParam(k, p);
   ref.SetSize(n); ref.SetParam(k, q);
   sx::eq(p.GetRequiredOption<double>("mu"), q.GetRequiredOption<double>("mu"), "same value");
   sx::eq(p.GetRequiredOption<double>("mu"), lo + (hi - lo) * k / (n - 1), "value");
}
SX_CASE(double_log)
{
   const int n = sx::choose("n", 1, 4);
   double lo = sx::real("lo", 0.25, 4), hi = sx::real("hi", 0.25, 64);
   sx::assume(lo <= hi);
   YAML::Node o = range(lo, hi);
   o["log_scale"] = true;
   DoubleParam par("a/b/c", o);
   std::vector<double> v = grid<double>(par, "a/b/c", n);
   sx::eq(v[0], lo, L("first", n, 0));
   if (n > 1) sx::eq(v[n - 1], hi, L("last", n, n - 1));
   for (int k = 1; k + 1 < n; k++) sx::eq(v[k + 1] * v[k - 1], v[k] * v[k], L("geometric", n, k));
   for (int k = 0; k < n; k++)
   {
      sx::check(v[k] >= lo - 1e-6, L("above minimum", n, k));
      sx::check(v[k] <= hi + 1e-6, L("below maximum", n, k));
   }
}
SX_CASE(double_random)
{
   double lo = sx::real("lo", -4, 4), d = sx::real("d", 0, 8), hi = lo + d;
   DoubleParam par("problem/mu", range(lo, hi));
   for (int t = 0; t < 2; t++)
   {
      InputParser p = parser();
      p.SetOption<int>("problem/other", 7);
      g_draw = t;
      par.SetRandomParam(p);
      double v = p.GetRequiredOption<double>("problem/mu");
      sx::check(v >= lo - 1e-9 && v <= hi + 1e-9, "within range");
      sx::check(p.GetRequiredOption<int>("problem/other") == 7, "other options kept");
      // the whole range is reached: the draw moves the value from one end to the other
      const double u = sx::real("u" + std::to_string(t), 0, 1);
      sx::eq((v - lo - d * u) * (v - hi + d * u), 0.0, "uniform over the range");
   }
}
SX_CASE(double_random_log)
{
   double lo = sx::real("lo", 0.25, 4), hi = sx::real("hi", 0.25, 64);
   sx::assume(lo <= hi);
   YAML::Node o = range(lo, hi);
   o["log_scale"] = true;
   DoubleParam par("mu", o);
   InputParser p = parser();
   g_draw = 0;
   par.SetRandomParam(p);
   double v = p.GetRequiredOption<double>("mu");
   sx::check(v >= lo - 1e-6, "above minimum");
   sx::check(v <= hi + 1e-6, "below maximum");
}
SX_CASE(integer_grid)
{
   const int n = sx::choose("n", 1, 5);
   int lo = sx::integer("lo", -1000, 1000), d = sx::integer("d", 0, 2000), hi = lo + d;
   IntegerParam par("problem/n", range(lo, hi));
   par.SetSize(n);
   std::vector<int> v = grid<int>(par, "problem/n", n);
   sx::check(v[0] == lo, L("first", n, 0));
   for (int k = 0; k < n; k++)
   {
      sx::check(v[k] >= lo, L("above minimum", n, k));
      sx::check(v[k] <= hi, L("below maximum", n, k));
   }
   for (int k = 1; k + 1 < n; k++) sx::check(v[k + 1] - v[k] == v[k] - v[k - 1], L("even", n, k));
   if (n > 1)
   {
      // the last sample is the maximum when the range is divisible, else within one step of rounding
      sx::check(hi - v[n - 1] < n - 1, L("last", n, n - 1));
      if (d % (n - 1) == 0) sx::check(v[n - 1] == hi, L("last exact", n, n - 1));
   }
}
SX_CASE(integer_random)
{
   int lo = sx::integer("lo", -1000, 1000), d = sx::integer("d", 0, 2000), hi = lo + d;
   IntegerParam par("problem/n", range(lo, hi));
   InputParser p = parser();
   g_draw = 0;
   par.SetRandomParam(p);
   int v = p.GetRequiredOption<int>("problem/n");
   sx::check(v >= lo, "above minimum");
   sx::check(v <= hi, "below maximum");
   const int r = sx::integer("r0", -100000, 100000);
   sx::check(v == r || v == lo + hi - r, "every value reachable");
}
SX_CASE(filename_grid)
{
   const int lo = sx::choose("lo", 0, 2), d = sx::choose("d", 0, 3), n = sx::choose("n", 1, 3), hi = lo + d;
   YAML::Node o = range(lo, hi);
   o["format"] = "dir/sol_%08d.h5";
   FilenameParam par("solver/file", o);
   std::vector<string> v = grid<string>(par, "solver/file", n);
   IntegerParam num("n", range(lo, hi));
   std::vector<int> w = grid<int>(num, "n", n);
   auto name = [](int k) { string s = std::to_string(k); return "dir/sol_" + string(8 - s.size(), '0') + s + ".h5"; };
   for (int k = 0; k < n; k++) sx::check(v[k] == name(w[k]), L("name", n, k));
   std::vector<string> all(1, "first");
   par.ParseFilenames(all);
   bool ok = (int)all.size() == d + 2 && all[0] == "first";
   for (int k = 0; ok && k <= d; k++) ok = all[k + 1] == name(lo + k);
   sx::check(ok, "every file of the range, in order, appended");
   InputParser p = parser();
   g_draw = 0; g_concrete = true;
   par.SetRandomParam(p);
   string s = p.GetRequiredOption<string>("solver/file");
   bool in = false;
   for (int k = lo; k <= hi; k++) in = in || s == name(k);
   sx::check(in, "random file of the range");
}
SX_CASE(refused)
{
   DoubleParam d("mu", range(1.0, 2.0));
   IntegerParam i("n", range(1, 9));
   InputParser p = parser();
   int one = 1;
   sx::check(sx::rejects([&]() { d.SetParam(0, p); }), "no size");
   sx::check(sx::rejects([&]() { i.SetParam(0, p); }), "no size (integer)");
   sx::check(sx::rejects([&]() { d.SetSize(0); }), "size zero");
   d.SetSize(3); i.SetSize(3);
   for (int k : {-1, 3, 4})
   {
      sx::check(sx::rejects([&]() { d.SetParam(k, p); }), "index out of range");
      sx::check(sx::rejects([&]() { i.SetParam(k, p); }), "index out of range (integer)");
   }
   sx::check(!sx::rejects([&]() { d.SetParam(2, p); }) && !sx::rejects([&]() { i.SetParam(2, p); }), "last index accepted");
   YAML::Node e, f, g;
   e["maximum"] = 1.0; f["minimum"] = 1.0; g["minimum"] = 1; g["maximum"] = 2;
   sx::check(sx::rejects([&]() { DoubleParam q("mu", e); }), "no minimum");
   sx::check(sx::rejects([&]() { DoubleParam q("mu", f); }), "no maximum");
   sx::check(sx::rejects([&]() { FilenameParam q("mu", g); }), "no format");
}
