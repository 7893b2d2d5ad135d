// Parameterised problems: names, indices, functions and boundary conditions.
#include "h.hpp"
#include "parameterized_problem.hpp"
#include <memory>
#include <map>
using std::string; using std::vector;
extern "C" void __wrap_exit(int) { abort(); }
typedef std::map<string, double> PM;
static const double PI = 4.0 * atan(1.0);
static const BoundaryType Z = BoundaryType::ZERO, D = BoundaryType::DIRICHLET, N = BoundaryType::NEUMANN;

struct Fix { string name; vector<std::pair<string, double>> par; vector<std::pair<int, BoundaryType>> bdr; };
static ParameterizedProblem *make(const string &name)
{
   config.dict_ = YAML::Load("{}");
   config.SetOption<string>("parameterized_problem/name", name);
   return InitParameterizedProblem();
}
static double R(const string &n, double lo = -2, double hi = 2) { return sx::real(n, lo, hi); }
static Vector point(int dim, const string &n = "x") { Vector x(dim); for (int d = 0; d < dim; d++) x(d) = R(n + std::to_string(d)); return x; }
static Vector call(function_factory::GeneralVectorFunction *f, const Vector &x, double t, int size)
{
   // the caller's vector holds whatever was there before
   Vector y(size);
   for (int d = 0; d < size; d++) y(d) = R("old" + std::to_string(d));
   f(x, t, y);
   return y;
}
typedef std::function<void(ParameterizedProblem &, const PM &, const string &)> Check;

// the problem's parameters by name, by index, in any order, from the configuration; `check` compares its functions
// with formulas evaluated at the given parameter values
static void run(const Fix &F, Check check, std::function<double(const string &, const string &)> draw = nullptr)
{
   if (!draw) draw = [](const string &pre, const string &n) { return R(pre + n, 0.25, 2); };
   const int np = F.par.size();
   { std::unique_ptr<ParameterizedProblem> before(make(F.name)); for (auto &p : F.par) before->SetParams(p.first, p.first == "bdr_idx" ? 2.0 : 0.75); }
   std::unique_ptr<ParameterizedProblem> P(make(F.name));
   sx::check(P->GetProblemName() == F.name, "name");
   sx::check(P->GetNumParams() == np, "number of parameters");
   std::vector<int> seen(np, 0);
   for (auto &p : F.par) { int i = P->GetParamIndex(p.first); bool in = i >= 0 && i < np; sx::check(in, "index of " + p.first); if (in) seen[i]++; }
   for (int i = 0; i < np; i++) sx::check(seen[i] == 1, "every index named once");
   // boundaries
   std::map<int, int> at;
   sx::check(P->battr.Size() == P->bdr_type.Size(), "a type for every boundary");
   for (int b = 0; b < P->battr.Size(); b++)
   {
      at[P->battr[b]]++;
      bool ok = false;
      for (auto &q : F.bdr) ok = ok || (q.first == P->battr[b] && q.second == P->bdr_type[b]);
      sx::check(ok, "condition at boundary " + std::to_string(P->battr[b]));
      if (P->bdr_type[b] == D) sx::check((b < P->scalar_bdr_ptr.Size() && P->scalar_bdr_ptr[b]) || (b < P->vector_bdr_ptr.Size() && P->vector_bdr_ptr[b]), "data at boundary " + std::to_string(P->battr[b]));
   }
   sx::check(at.size() == F.bdr.size() && P->battr.Size() == (int)F.bdr.size(), "every boundary listed once");
   // defaults, also after another problem of this kind was changed
   PM v;
   for (auto &p : F.par) v[p.first] = p.second;
   check(*P, v, "default");
   // by name
   for (auto &p : F.par) { v[p.first] = draw("p_", p.first); P->SetParams(p.first, v[p.first]); }
   check(*P, v, "by name");
   // by index, some of them, last ones first
   Array<int> ix; vector<double> vals;
   for (int k = np - 1; k >= 0; k -= 2) { const string &n = F.par[k].first; v[n] = draw("q_", n); ix.Append(P->GetParamIndex(n)); vals.push_back(v[n]); }
   Vector vv((int)vals.size()); for (int k = 0; k < vv.Size(); k++) vv(k) = vals[k];
   P->SetParams(ix, vv);
   check(*P, v, "by index");
   // one at a time, by index and by name, there and back: nothing else changes, and everything that follows from it does
   const PM kept(v);
   for (int round = 0; round < 4; round++) for (int k = 0; k < np; k++)
   {
      const string &n = F.par[k].first; v[n] = n == "bdr_idx" ? round % 2 + 1.0 : n == "u0_x" || n == "u0_y" ? (round % 2 ? -0.6 : 0.7) : 0.5 + 0.3 * (round % 2) + 0.01 * k;
      if (round == 1 || round == 2) { Array<int> i1(1); i1[0] = P->GetParamIndex(n); Vector v1(1); v1 = v[n]; P->SetParams(i1, v1); } else P->SetParams(n, v[n]);
      if (round > 0 || k == np - 1) check(*P, v, n + " alone");
   }
   v = kept; for (auto &p : F.par) P->SetParams(p.first, v[p.first]);
   // from the configuration
   const int m = std::min(np, 3);
   for (int k = 0; k < m; k++) { const string &n = F.par[(2 * k + 1) % np].first; double s = draw("s_", n); config.SetOption<double>("single_run/" + F.name + "/" + n, s); v[n] = s; }
   P->SetSingleRun();
   check(*P, v, "single run");
   // refused
   sx::check(sx::rejects([&]() { P->SetParams("no such name", 1.0); }), "unknown name");
   sx::check(sx::rejects([&]() { P->GetParamIndex("no such name"); }), "unknown name (index)");
   Vector shorter(ix.Size() - 1); shorter = 0.5;
   if (ix.Size() > 1) sx::check(sx::rejects([&]() { P->SetParams(ix, shorter); }), "one value per index");
   Array<int> many(np + 1); many = 0; Vector manyv(np + 1); manyv = 0.5;
   sx::check(sx::rejects([&]() { P->SetParams(many, manyv); }), "too many");
   check(*P, v, "after refusals");
   config.SetOption<double>("single_run/" + F.name + "/no such name", 1.0);
   sx::check(sx::rejects([&]() { P->SetSingleRun(); }), "unknown name (single run)");
   config.dict_ = YAML::Load("{single_run: {}}");
   sx::check(sx::rejects([&]() { P->SetSingleRun(); }), "single run without this problem");
}
static void same(const Vector &y, const vector<double> &e, const string &w)
{
   sx::check(y.Size() == (int)e.size(), w + " size");
   for (int d = 0; d < y.Size() && d < (int)e.size(); d++) sx::eq(y(d), e[d], w + " [" + std::to_string(d) + "]");
}

SX_CASE(poisson0)
{
   run({"poisson0", {{"k", 1.0}, {"offset", 0.0}}, {{-1, Z}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      for (int dim = 1; dim <= 3; dim++)
      {
         Vector x = point(dim);
         double s = 0.0; for (int d = 0; d < dim; d++) s += x(d);
         sx::eq(P.scalar_rhs_ptr(x, R("t")), sin(2.0 * PI * (v.at("k") * s + v.at("offset"))), "source " + w);
      }
   });
}
SX_CASE(poisson_component)
{
   run({"poisson_component", {{"k0", 0}, {"k1", 0}, {"k2", 0}, {"offset", 0.1}, {"bdr_k0", 0}, {"bdr_k1", 0}, {"bdr_k2", 0}, {"bdr_offset", 0}, {"bdr_idx", -1}}, {{-1, D}}},
      [](ParameterizedProblem &P, const PM &v, const string &w) {
      for (int dim = 1; dim <= 3; dim++)
      {
         Vector x = point(dim);
         double s = v.at("offset"), b = v.at("bdr_offset");
         for (int d = 0; d < dim; d++) { s += v.at("k" + std::to_string(d)) * x(d); b += v.at("bdr_k" + std::to_string(d)) * x(d); }
         sx::eq(P.scalar_rhs_ptr(x, R("t")), sin(2.0 * PI * s), "source " + w);
         for (int q = 0; q < P.scalar_bdr_ptr.Size(); q++) sx::eq(P.scalar_bdr_ptr[q](x, R("t")), sin(2.0 * PI * b), "boundary value " + w);
      }
      // a non-negative index picks one boundary, a negative one all of them
      const double i = v.at("bdr_idx");
      sx::check(P.battr.Size() == 1, "one entry");
      const int a = P.battr[0];
      if (w != "default") sx::check(i < 0 ? a == -1 : (a - 1 <= i && i < a), "boundary picked " + w);
   }, [](const string &pre, const string &n) { return n == "bdr_idx" ? R(pre + n, -2, 3.875) : R(pre + n); });
}
SX_CASE(poisson_component_index)
{
   std::unique_ptr<ParameterizedProblem> P(make("poisson_component"));
   double i = R("i", -3, 8);
   Array<int> ix(1); ix[0] = P->GetParamIndex("bdr_idx"); Vector v(1); v(0) = i;
   const bool by = sx::choose("by_name", 0, 1);
   bool refused = sx::rejects([&]() { if (by) P->SetParams("bdr_idx", i); else P->SetParams(ix, v); });
   sx::check(refused == (i >= 4), "index of a boundary that does not exist is refused");
   if (!refused) sx::check(i < 0 ? P->battr[0] == -1 : (P->battr[0] - 1 <= i && i < P->battr[0]), "boundary picked");
}
SX_CASE(poisson_spiral)
{
   run({"poisson_spiral", {{"L", 1.0}, {"Lw", 0.2}, {"k", 1.0}, {"s", 0.6}}, {{-1, Z}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      static const double pts[][2] = {{0.9, 0.6}, {0.1, 0.7}, {0.2, 0.2}, {0.75, 0.1}, {0.55, 0.5}, {1.5, 1.25}};
      const double L = v.at("L");
      for (auto &p : pts)
      {
         Vector x(2); x(0) = p[0]; x(1) = p[1];
         const double a = p[0] - 0.5 * L, b = p[1] - 0.5 * L;
         double th = std::atan2(b, a); if (th < 0) th += 2 * PI;
         const double r = std::sqrt(a * a + b * b), pitch = v.at("s") * L / 2;
         // distance to the arms r = pitch (theta/2pi + m), m = -1, 0, 1
         double dist = 1e9;
         for (int m = -1; m <= 1; m++) dist = std::min(dist, std::fabs(r - pitch * (th / (2 * PI) + m)));
         sx::eq(P.scalar_rhs_ptr(x, R("t")), exp(-0.5 * dist * dist / v.at("Lw") / v.at("Lw")) * cos(2.0 * PI * v.at("k") * dist), "source " + w, 1e-7);
      }
   }, [](const string &pre, const string &n) { double shift = pre == "p_" ? 0.0 : pre == "q_" ? 0.25 : 0.125; return n == "L" ? 1.25 + shift : n == "s" ? 0.75 + shift : R(pre + n, 0.25, 1); });
}
static void bdr_all(ParameterizedProblem &P, int n, const string &w, std::function<vector<double>(const Vector &, double)> f, int dim)
{
   Vector x = point(dim); const double t = R("t");
   vector<double> e = f(x, t);
   sx::check(P.vector_bdr_ptr.Size() == n, "number of boundary functions");
   for (int b = 0; b < P.vector_bdr_ptr.Size(); b++)
      if (P.vector_bdr_ptr[b]) same(call(P.vector_bdr_ptr[b], x, t, dim), e, "boundary value " + w);
      else sx::check(P.bdr_type[b] != D, "no data only where none is needed");
}
SX_CASE(channel_flow)
{
   run({"channel_flow", {{"nu", 1.0}, {"L", 1.0}, {"U", 1.0}, {"x0", 0.5}}, {{1, Z}, {2, N}, {3, Z}, {4, D}, {5, Z}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      sx::eq(function_factory::flow_problem::nu, v.at("nu"), "viscosity " + w);
      for (int dim = 2; dim <= 3; dim++)
         bdr_all(P, 5, w, [&](const Vector &x, double) { double y = (x(1) - v.at("x0")) / v.at("L"); vector<double> e(x.Size(), 0.0); e[0] = v.at("U") * (1.0 - 4.0 * y * y); return e; }, dim);
   });
}
static Fix flowFix(const string &name, vector<std::pair<int, BoundaryType>> b)
{
   Fix F; F.name = name; F.bdr = b;
   F.par.push_back({"nu", 1.0});
   for (const char *c : {"x", "y", "z"})
   {
      F.par.push_back({string("u0_") + c, 0.0}); F.par.push_back({string("du_") + c, 1.0}); F.par.push_back({string("offsets_") + c, 0.0});
      for (const char *u : {"u", "v", "w"}) F.par.push_back({string("k_") + u + "_" + c, 1.0});
   }
   return F;
}
static void componentFlow(ParameterizedProblem &P, const PM &v, const string &w, int nb)
{
   static const char *xc[] = {"x", "y", "z"}, *uc[] = {"u", "v", "w"};
   sx::eq(function_factory::flow_problem::nu, v.at("nu"), "viscosity " + w);
   for (int dim = 2; dim <= 3; dim++)
   {
      function_factory::flow_problem::x0.SetSize(dim);
      for (int d = 0; d < dim; d++) function_factory::flow_problem::x0(d) = R("c" + std::to_string(d));
      function_factory::flow_problem::del_u = R("del_u");
      bdr_all(P, nb, w, [&](const Vector &x, double) {
         vector<double> e(dim);
         for (int i = 0; i < dim; i++)
         {
            double a = -v.at(string("offsets_") + xc[i]);
            for (int j = 0; j < dim; j++) a += v.at(string("k_") + uc[i] + "_" + xc[j]) * x(j);
            e[i] = v.at(string("u0_") + xc[i]) + v.at(string("du_") + xc[i]) * sin(2.0 * PI * a) - R("del_u") * (x(i) - R("c" + std::to_string(i)));
         }
         return e; }, dim);
   }
}
SX_CASE(component_flow)
{
   run(flowFix("component_flow", {{1, D}, {2, D}, {3, D}, {4, D}, {5, Z}}), [](ParameterizedProblem &P, const PM &v, const string &w) { componentFlow(P, v, w, 5); });
}
// inflow where the mean flow enters, outflow where it leaves
static void arrayTypes(ParameterizedProblem &P, const PM &v, const string &w, BoundaryType obstacle)
{
   if (w.compare(0, 7, "default") == 0) return;
   const bool right = v.at("u0_x") > 0.0, up = v.at("u0_y") > 0.0;
   for (int b = 0; b < P.battr.Size(); b++)
   {
      const int a = P.battr[b];
      const BoundaryType t = P.bdr_type[b];
      if (a == 1) sx::check(t == (up ? D : N), "bottom " + w);
      if (a == 3) sx::check(t == (up ? N : D), "top " + w);
      if (a == 4) sx::check(t == (right ? D : N), "left " + w);
      if (a == 2) sx::check(t == (right ? N : D), "right " + w);
      if (a == 5) sx::check(t == obstacle, "obstacle " + w);
   }
}
static double drawFlow(const string &pre, const string &n) { return n == "u0_x" || n == "u0_y" ? R(pre + n, -1, 1) : R(pre + n, 0.25, 2); }
SX_CASE(flow_past_array)
{
   run(flowFix("flow_past_array", {{1, D}, {2, D}, {3, D}, {4, D}, {5, Z}}), [](ParameterizedProblem &P, const PM &v, const string &w) { componentFlow(P, v, w, 5); arrayTypes(P, v, w, Z); }, drawFlow);
}
SX_CASE(advdiff_flow_past_array)
{
   Fix F = flowFix("advdiff_flow_past_array", {{1, D}, {2, D}, {3, D}, {4, D}, {5, N}});
   for (auto &p : vector<std::pair<string, double>>{{"q0", 1.0}, {"dq", 0.1}, {"qoffset", 0.0}, {"qk_x", 0.0}, {"qk_y", 0.0}, {"qk_z", 0.0}}) F.par.push_back(p);
   run(F, [](ParameterizedProblem &P, const PM &v, const string &w) {
      componentFlow(P, v, w, 5); arrayTypes(P, v, w, N);
      for (int dim = 2; dim <= 3; dim++)
      {
         Vector x = point(dim);
         double a = v.at("qoffset"); static const char *c[] = {"qk_x", "qk_y", "qk_z"};
         for (int d = 0; d < dim; d++) a += v.at(c[d]) * x(d);
         sx::check(P.scalar_bdr_ptr.Size() == 5, "boundary functions");
         for (int b = 0; b < P.scalar_bdr_ptr.Size(); b++) sx::eq(P.scalar_bdr_ptr[b](x, R("t")), v.at("q0") + v.at("dq") * sin(2.0 * PI * a), "boundary value " + w);
      }
      // the flow problem that provides the velocity follows the same parameters
      FlowProblem *f = function_factory::advdiff_problem::flow_problem;
      sx::check(f != NULL && (ParameterizedProblem *)f != &P, "flow problem");
      sx::check(P.scalar_rhs_ptr == NULL, "no source");
      if (f) { componentFlow(*f, v, w + " (flow)", 5); arrayTypes(*f, v, w + " (flow)", Z); }
   }, drawFlow);
}
SX_CASE(backward_facing_step)
{
   Fix F = {"backward_facing_step", {{"nu", 1.0}, {"y0", 0.0}, {"y1", 1.0}, {"u0", 1.0}}, {{1, D}, {2, Z}, {3, N}}};
   for (int m = 0; m < 2; m++) for (const char *n : {"amp", "ky", "freq", "t_offset"}) F.par.push_back({n + std::to_string(m), 0.0});
   run(F, [](ParameterizedProblem &P, const PM &v, const string &w) {
      sx::eq(function_factory::flow_problem::nu, v.at("nu"), "viscosity " + w);
      const double y0 = v.at("y0"), y1 = v.at("y1"), gap = y1 - y0;
      bdr_all(P, 3, w, [&](const Vector &x, double t) {
         vector<double> e(2, 0.0);
         e[0] = -v.at("u0") * 4.0 / gap / gap * (y0 - x(1)) * (y1 - x(1));
         for (int m = 0; m < 2; m++)
         {
            const string M = std::to_string(m);
            e[1] += v.at("amp" + M) * sin(PI * v.at("ky" + M) * (x(1) - y0) / gap) * sin(2. * PI * (v.at("freq" + M) * t + v.at("t_offset" + M)));
         }
         return e; }, 2);
      sx::check(P.ic_ptr.Size() == 2, "initial conditions");
      if (P.ic_ptr.Size() != 2) return;
      Vector x = point(2);
      Vector u = call(P.ic_ptr[0], x, R("t"), 2), p = call(P.ic_ptr[1], x, R("t"), 1);
      double e0 = x(1) < y0 ? 0.0 : -v.at("u0") * 4.0 / gap / gap * (y0 - x(1)) * (y1 - x(1));
      same(u, {e0, 0.0}, "initial velocity " + w);
      same(p, {0.0}, "initial pressure " + w);
   }, [](const string &pre, const string &n) { return n == "y1" ? R(pre + n, 1.5, 2) : n == "y0" ? R(pre + n, 0.25, 1) : R(pre + n, 0.25, 2); });
}
SX_CASE(lid_driven_cavity)
{
   run({"lid_driven_cavity", {{"nu", 1.0}, {"u0", 1.0}, {"L", 1.0}}, {{1, D}, {2, Z}, {3, D}, {4, Z}, {5, Z}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      sx::eq(function_factory::flow_problem::nu, v.at("nu"), "viscosity " + w);
      for (int dim = 2; dim <= 3; dim++)
         bdr_all(P, 5, w, [&](const Vector &x, double) { vector<double> e(x.Size(), 0.0); e[0] = 4.0 * v.at("u0") * x(0) * (v.at("L") - x(0)) / v.at("L") / v.at("L"); return e; }, dim);
   });
}
static void forced(ParameterizedProblem &P, const PM &v, const string &w)
{
   sx::eq(function_factory::flow_problem::nu, v.at("nu"), "viscosity " + w);
   sx::check(P.vector_rhs_ptr != NULL, "force");
   if (!P.vector_rhs_ptr) return;
   Vector x = point(3);
   same(call(P.vector_rhs_ptr, x, R("t"), 3), {v.at("fx"), v.at("fy"), v.at("fz")}, "force " + w);
   for (int b = 0; b < P.vector_bdr_ptr.Size(); b++) sx::check(P.vector_bdr_ptr[b] == NULL, "no boundary data");
}
SX_CASE(periodic_flow_past_array) { run({"periodic_flow_past_array", {{"nu", 1.0}, {"fx", 0.0}, {"fy", 0.0}, {"fz", 0.0}}, {{5, Z}}}, forced); }
SX_CASE(force_driven_corner) { run({"force_driven_corner", {{"nu", 1.0}, {"fx", 0.0}, {"fy", 0.0}, {"fz", 0.0}}, {{1, Z}, {2, Z}, {3, N}, {4, N}, {5, Z}}}, forced); }

static void material(ParameterizedProblem &P, const PM &v, const string &w)
{
   Vector x = point(2);
   sx::check(P.general_scalar_ptr.Size() >= 2, "material functions");
   if (P.general_scalar_ptr.Size() < 2) return;
   sx::eq(P.general_scalar_ptr[0](x, R("t")), v.at("lambda"), "lambda " + w);
   sx::eq(P.general_scalar_ptr[1](x, R("t")), v.at("mu"), "mu " + w);
}
typedef std::function<vector<double>(const Vector &)> VF;
// boundary attribute -> expected data (none: no function)
static void elastic(ParameterizedProblem &P, const PM &v, const string &w, const std::map<int, VF> &bdr)
{
   material(P, v, w);
   for (int dim = 2; dim <= 3; dim++)
   {
      Vector x = point(dim);
      for (int b = 0; b < P.battr.Size(); b++)
      {
         auto it = bdr.find(P.battr[b]);
         const string B = "boundary " + std::to_string(P.battr[b]) + " " + w;
         sx::check((P.vector_bdr_ptr[b] != NULL) == (it != bdr.end()), B + " data");
         if (P.vector_bdr_ptr[b] && it != bdr.end()) same(call(P.vector_bdr_ptr[b], x, R("t"), dim), it->second(x), B);
      }
   }
   sx::check(P.general_vector_ptr.Size() >= 1, "initial condition entry");
}
static VF disp(const PM &v) { const double r = v.at("rdisp_f"); return [r](const Vector &x) { vector<double> e(x.Size(), 0.0); e.back() = -0.2 * x(0) * r; return e; }; }
SX_CASE(linelast_disp)
{
   run({"linelast_disp", {{"rdisp_f", 1.0}, {"lambda", 1.0}, {"mu", 1.0}}, {{1, D}, {2, D}, {3, Z}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      elastic(P, v, w, {{1, disp(v)}, {2, disp(v)}});
      sx::check(P.general_vector_ptr[0] != NULL, "initial displacement");
      if (P.general_vector_ptr[0]) { Vector x = point(2); same(call(P.general_vector_ptr[0], x, R("t"), 2), disp(v)(x), "initial displacement " + w); }
   });
}
SX_CASE(linelast_disp_lcantilever)
{
   run({"linelast_disp_lcantilever", {{"rdisp_f", 1.0}, {"lambda", 1.0}, {"mu", 1.0}}, {{1, D}, {2, D}, {3, N}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      const double r = v.at("rdisp_f");
      VF f = [r](const Vector &x) { vector<double> e(x.Size(), 0.0); e.back() = -0.2 * (x(x.Size() - 1) - 5.0) * r; return e; };
      elastic(P, v, w, {{1, f}, {2, f}});
   });
}
SX_CASE(linelast_disp_lattice)
{
   run({"linelast_disp_lattice", {{"rdisp_f", 1.0}, {"lambda", 1.0}, {"mu", 1.0}}, {{1, N}, {2, D}, {3, N}, {4, D}, {5, N}}}, [](ParameterizedProblem &P, const PM &v, const string &w) { elastic(P, v, w, {{2, disp(v)}, {4, disp(v)}}); });
}
SX_CASE(linelast_force_cantilever)
{
   run({"linelast_force_cantilever", {{"rforce_f", 1.0}, {"lambda", 1.0}, {"mu", 1.0}}, {{1, N}, {2, N}, {3, N}, {4, D}, {5, N}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      const double r = v.at("rforce_f");
      function_factory::linelast_disp::rdisp_f = R("rdisp");
      PM u; u["rdisp_f"] = R("rdisp");
      elastic(P, v, w, {{2, [r](const Vector &x) { vector<double> e(x.Size(), 0.0); e.back() = -1.0e-2 * r; return e; }}, {4, disp(u)}});
   });
}
SX_CASE(linelast_frame_wind)
{
   run({"linelast_frame_wind", {{"lambda", 3846153846.0}, {"mu", 769230769.0}, {"qwind_f", 500.0}, {"density", 78.5}, {"g", 9.81}}, {{1, N}, {2, N}, {3, N}, {4, D}, {5, N}}}, [](ParameterizedProblem &P, const PM &v, const string &w) {
      const double q = v.at("qwind_f");
      elastic(P, v, w, {{1, [q](const Vector &x) { vector<double> e(x.Size(), 0.0); e[0] = q; return e; }}, {4, [](const Vector &x) { return vector<double>(x.Size(), 0.0); }}});
      sx::check(P.vector_rhs_ptr != NULL, "gravity");
      if (P.vector_rhs_ptr) { Vector x = point(3); same(call(P.vector_rhs_ptr, x, R("t"), 3), {0.0, 0.0, -v.at("density") * v.at("g")}, "gravity " + w); }
   });
}
SX_CASE(linelast_cwtrain)
{
   Fix F = {"linelast_cwtrain", {}, {{1, N}, {2, N}, {3, N}, {4, D}, {5, N}}};
   for (const char *n : {"l_ux", "l_uy", "r_fx", "r_fy", "u_fx", "u_fy", "d_fx", "d_fy", "b_fx", "b_fy", "lx", "ly", "rx", "ry", "dx", "dy", "ux", "uy", "bx", "by"}) F.par.push_back({n, 0.0});
   for (const char *n : {"lambda", "mu"}) F.par.push_back({n, 1.0});
   for (const char *a : {"xu", "xf", "yu", "yf", "bxf", "byf"}) { F.par.push_back({string(a) + "_amp", 1.0}); F.par.push_back({string(a) + "_freq", 1.0}); F.par.push_back({string(a) + "_offset", 0.0}); }
   // one switch is arbitrary, the others on or off together (every pattern of one boundary is explored)
   const int which = sx::choose("which", 0, 4), on = sx::choose("on", 0, 1);
   static const char *sw[][2] = {{"lx", "ly"}, {"rx", "ry"}, {"dx", "dy"}, {"ux", "uy"}, {"bx", "by"}};
   run(F, [&](ParameterizedProblem &P, const PM &v, const string &w) {
      auto f = [&](int s, const string &c, const string &ax, const string &ay) -> VF {
         return [&v, s, c, ax, ay](const Vector &x) {
            vector<double> e(x.Size(), 0.0);
            auto wave = [&](double y, const string &a) { return v.at(a + "_amp") * sin(PI * v.at(a + "_freq") * (y / 3.0 + 2 * v.at(a + "_offset"))); };
            if (v.at(sw[s][0]) >= 0.5) e[0] = v.at(c + "x") + wave(x(0), ax);
            if (v.at(sw[s][1]) >= 0.5) e[1] = v.at(c + "y") + wave(x(1), ay);
            return e;
         };
      };
      elastic(P, v, w, {{4, f(0, "l_u", "xu", "yu")}, {2, f(1, "r_f", "xf", "yf")}, {1, f(2, "d_f", "xf", "yf")}, {3, f(3, "u_f", "xf", "yf")}});
      sx::check(P.general_vector_ptr[0] != NULL, "body force");
      if (P.general_vector_ptr[0]) { Vector x = point(2); same(call(P.general_vector_ptr[0], x, R("t"), 2), f(4, "b_f", "bxf", "byf")(x), "body force " + w); }
   }, [&](const string &pre, const string &n) {
      for (int s = 0; s < 5; s++) for (int d = 0; d < 2; d++) if (n == sw[s][d]) return s == which ? R(pre + n, 0, 1) : on ? 0.75 : 0.25;
      return R(pre + n, 0.25, 2); });
}
SX_CASE(unknown_problem)
{
   sx::check(sx::rejects([&]() { make("no such problem"); }), "unknown problem");
   config.dict_ = YAML::Load("{}");
   sx::check(sx::rejects([&]() { InitParameterizedProblem(); }), "no problem given");
}
