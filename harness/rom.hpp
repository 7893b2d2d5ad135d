// reduced models: composed domains, configuration and files of bases
#pragma once
#include "phys.hpp"
#include "comp.hpp"
#include "asked.hpp"
#include "linalg_utils.hpp"
#include "hdf5_utils.hpp"
#include "rom_handler.hpp"
#include "mfem/Utilities.hpp"
#include "linalg/BasisReader.h"
template <class T> struct Open : public T
{
   using T::RHS; using T::U; using T::fes; using T::numSub; using T::num_var; using T::var_offsets; using T::domain_offsets; using T::rom_handler; using T::topol_handler; using T::meshes;
};
struct OHandler : public MFEMROMHandler { using MFEMROMHandler::romMat; using MFEMROMHandler::reduced_rhs; using MFEMROMHandler::num_ref_basis; };
static Six tr(double x, double y) { return Six{{x, y, 0, 0, 0, 0}}; }
static const int GLOBAL[4] = {1, 5, 3, 2};
// composed domains: a 2x2 lattice of one cell, or a row alpha beta alpha; global boundaries are named 1, 2, 3, 5
static World compose(int kind, int k)
{
   World w = k < 2 ? lattice(kind, 1, k, k, order4(k ? 2 : 0), k) : strip(kind, 1, k == 2 ? 1 : 0, k == 2, k == 3 ? 1 : 0, k == 3, k == 3, 0.5, -1.0);
   for (auto &b : w.bdr) b[0] = k < 2 ? (b[0] == 4 ? 5 : b[0]) : b[0] == 2 ? 2 : b[0] == 20 ? 5 : (b[2] == w.side(2) ? (b[1] == 1 ? 3 : 1) : (b[1] == 2 ? 1 : 3));
   return w;
}
static const char *KINDS[] = {"DDDD", "NDDN", "DNDT", "D-DN", "DZND", "ZZZD"};
struct Conf { World w; World2 *sub = nullptr; bool dg, sep, byvar; S kinds, level; std::vector<S> vars; int nsup; double sg, ka; };
static void conf(const Conf &c)
{
   if (c.sub) c.sub->configure(); else configure(c.w, 'y'); config.dict_["discretization"] = YAML::Load("{order: 1, full-discrete-galerkin: " + S(c.dg ? "true" : "false") + ", interface: {}}"); config.dict_["main"] = YAML::Load("{use_rom: true}"); config.dict_["parameterized_problem"] = YAML::Load("{name: none}");
   config.dict_["solver"] = YAML::Load("{use_amg: false, max_iter: 9}"); config.dict_["basis"] = YAML::Load("{prefix: base, number_of_basis: 2, number_of_supremizer: " + I(c.nsup) + ", tags: [{name: alpha, number_of_basis: 1}, {name: beta_vel, number_of_basis: 1}, {name: cell_pres, number_of_basis: 1}]}");
   config.dict_["model_reduction"] = YAML::Load("{separate_variable_basis: " + S(c.sep ? "true" : "false") + ", ordering: " + (c.byvar ? "variable" : "domain") + ", linear_solver_type: cg, preconditioner: none, save_operator: {level: " + c.level + ", prefix: op}}");
}
static void penalty(Conf &c, const char *a) { config.dict_["discretization"]["interface"][a] = c.sg; config.dict_["discretization"]["interface"]["kappa"] = c.ka; }
// symbolic entries here and there in an otherwise regular basis
static int firstHalf;   // rows of the first component of the first variable
static std::function<double(int, int)> basisEntry = [](int i, int j) { return 0.125 * ((5 * i + 3 * j) % 11) - 0.5; };
static DenseMatrix basisOf(int n, int k, const S &name, int nsym) { DenseMatrix B(n, k); for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) B(i, j) = basisEntry(i, j); for (int s = 0; s < nsym; s++) { const int i = (7 * s + 2) % n, j = s % k; B(i, j) = sx::real("B_" + name + I(s)); } return B; }
struct Bases
{
   std::map<S, DenseMatrix> B;
   // the files of the bases, from the sizes the full-order solver has
   template <class Sol> Bases(Conf &c, Sol &f, int nsym)
   {
      CAROM::model::bases().clear(); const int nv = c.vars.size();
      for (size_t t = 0; t < c.w.names.size(); t++)
      {
         int m = 0; while (c.w.types[m] != (int)t) m++;
         firstHalf = (f.var_offsets[m * nv + 1] - f.var_offsets[m * nv]) / 2;
         for (int v = 0; v < (c.sep ? nv : 1); v++)
         {
            const S tag = c.w.names[t] + (c.sep ? "_" + c.vars[v] : S("")); const int n = c.sep ? f.var_offsets[m * nv + v + 1] - f.var_offsets[m * nv + v] : f.domain_offsets[m + 1] - f.domain_offsets[m], k = tag == "alpha" || tag == "beta_vel" || tag == "cell_pres" ? 1 : 2;
            DenseMatrix b = basisOf(n, k, tag, nsym); CAROM::Matrix x(n, k + 1, false); for (int i = 0; i < n; i++) for (int j = 0; j <= k; j++) x(i, j) = j < k ? b(i, j) : 5.0; CAROM::model::bases()["base_" + tag] = x;
            if (c.sep && nv == 2 && v == 0)
            {
               DenseMatrix s = basisOf(n, 2, tag + "sup", nsym ? 1 : 0); for (int i = 0; i < n; i++) s(i, 0) += 0.0625 * (i % 3); hid_t fl = H5Fcreate(("base_" + c.w.names[t] + "_sup.h5").c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(fl, "supremizer_basis", s); H5Fclose(fl);
               DenseMatrix e(n, k + c.nsup); for (int i = 0; i < n; i++) for (int j = 0; j < k + c.nsup; j++) e(i, j) = j < k ? b(i, j) : s(i, j - k); b = e;
            }
            B[tag] = b;
         }
      }
   }
   const DenseMatrix &of(const Conf &c, int m, int v) { return B[c.w.names[c.w.types[m]] + (c.sep ? "_" + c.vars[v] : S(""))]; }
};
static DenseMatrix rtap(const DenseMatrix &R, const DenseMatrix &A, const DenseMatrix &P)
{
   DenseMatrix T(A.Height(), P.Width()), M(R.Width(), P.Width()); for (int a = 0; a < A.Height(); a++) for (int j = 0; j < P.Width(); j++) { double s = 0; for (int b = 0; b < A.Width(); b++) s += A(a, b) * P(b, j); T(a, j) = s; }
   for (int i = 0; i < M.Height(); i++) for (int j = 0; j < M.Width(); j++) { double s = 0; for (int a = 0; a < A.Height(); a++) s += R(a, i) * T(a, j); M(i, j) = s; } return M;
}
template <class Sol> static void open(Sol &s, Prob &p) { s.InitVariables(); s.InitROMHandler(); s.SetParameterizedProblem(&p); }
// full-order block of a subdomain pair in the layout of the basis
template <class Sol> static DenseMatrix whole(Sol &f, const Conf &c, int m, int v, int n, int w)
{
   if (c.sep) return f.block(m, v, n, w); const int nv = c.vars.size(); DenseMatrix A(f.domain_offsets[m + 1] - f.domain_offsets[m], f.domain_offsets[n + 1] - f.domain_offsets[n]); A = 0.0;
   for (int a = 0; a < nv; a++) for (int b = 0; b < nv; b++) { DenseMatrix d = f.block(m, a, n, b); const int r = f.var_offsets[m * nv + a] - f.domain_offsets[m], s = f.var_offsets[n * nv + b] - f.domain_offsets[n]; for (int i = 0; i < d.Height(); i++) for (int j = 0; j < d.Width(); j++) A(r + i, s + j) = d(i, j); } return A;
}
