// Reduced system: numbering of the blocks, projection on the component bases, lifting, and what the solver is asked
#include "h.hpp"
#include "input_parser.hpp"
#include "linalg_utils.hpp"
#include "rom_handler.hpp"
#include "redirect.hpp"
#include <unistd.h>
// ---- the iterative and direct solvers are MFEM's: what matters here is the system they are given and what is done with their answer
struct Asked { const Operator *op = nullptr; const Solver *prec = nullptr; S who; Vector b, x0, x; double rtol = -1, atol = -1; int maxit = -1, times = 0; };
static Asked asked;
static std::function<double(int)> answer;
static void record(const S &who, const Operator *op, const Solver *prec, const Vector &b, Vector &x) { asked.who = who; asked.op = op; asked.prec = prec; asked.b = b; asked.x0 = x; asked.times++; for (int i = 0; i < x.Size(); i++) x[i] = answer(i); asked.x = x; }
#define SOLVER(C) void mfem::C::Mult(const Vector &b, Vector &x) const { asked.rtol = rel_tol; asked.atol = abs_tol; asked.maxit = max_iter; record(#C, oper, prec, b, x); }
SOLVER(CGSolver) SOLVER(MINRESSolver) SOLVER(NewtonSolver)
static Redirect redirect{"_ZNK4mfem8CGSolver4MultERKNS_6VectorERS1_", "_ZNK4mfem12MINRESSolver4MultERKNS_6VectorERS1_", "_ZNK4mfem12NewtonSolver4MultERKNS_6VectorERS1_"};
static std::map<const Operator *, SparseMatrix *> parallelOf;
mfem::HypreParMatrix::HypreParMatrix(MPI_Comm, HYPRE_BigInt n, HYPRE_BigInt *s, SparseMatrix *a) { Init(); height = width = n; sx::check(s[0] == 0 && s[1] == n && a->Height() == n, "partition of the reduced system"); parallelOf[this] = a; }
// ---- a composition, as far as the reduced model needs it
struct Topo : public TopologyHandler
{
   Topo(std::vector<int> types, int nc) : TopologyHandler(TopologyHandlerMode::COMPONENT)
   { numSub = types.size(); num_comp = nc; mesh_types.SetSize(numSub); for (int m = 0; m < numSub; m++) mesh_types[m] = types[m]; for (int c = 0; c < nc; c++) comp_names.push_back(c == 0 ? "alpha" : c == 1 ? "beta" : "gamma"); }
   Mesh *GetMesh(const int) override { return nullptr; }
   Mesh *GetGlobalMesh() override { return nullptr; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override {}
   void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override {}
};
struct Setup
{
   std::vector<int> types; int nc, nv; bool sep, byvar; S solver = "cg", prec = "none", level = "none", more; bool tags = true; int dflt = 2;
   int ns() const { return types.size(); }
   int dim(int c, int v) const { return 2 + (c + 2 * v) % 3; }                       // full-order size of a component's variable
   int cdim(int c) const { int s = 0; for (int v = 0; v < nv; v++) s += dim(c, v); return s; }
   int nbr(int r) const { return tags && r != 1 ? 1 + (r + 1) % 2 : dflt; }            // basis vectors of a reference block (block 1 is not listed)
   int nref() const { return sep ? nc * nv : nc; }
   S name(int v) const { return v == 0 ? "vel" : v == 1 ? "pres" : "temp"; }
   S tag(int r) const { S c = sep ? S(r / nv == 0 ? "alpha" : r / nv == 1 ? "beta" : "gamma") : S(r == 0 ? "alpha" : r == 1 ? "beta" : "gamma"); return sep ? c + "_" + name(r % nv) : c; }
   int refdim(int r) const { return sep ? dim(r / nv, r % nv) : cdim(r); }
   int nblk() const { return sep ? ns() * nv : ns(); }
   int block(int m, int v) const { return !sep ? m : byvar ? v * ns() + m : m * nv + v; }
   int ref(int m, int v) const { return sep ? types[m] * nv + v : types[m]; }
};
static DenseMatrix sym(int r, int c, const S &n, int every = 1, int shift = 0) { DenseMatrix A(r, c); int k = 0; for (int j = 0; j < c; j++) for (int i = 0; i < r; i++, k++) A(i, j) = !every ? (i == j ? 2.0 : 0.0625 * ((3 * i + j) % 4)) : k % every == shift % every ? sx::real(n + I(i, j)) : 0.25 + 0.125 * ((5 * i + 3 * j) % 7) - (k % 2 ? 1.0 : 0.0); return A; }
struct Rom
{
   Setup s; Topo t; std::vector<DenseMatrix> B; Array<int> voff, doff; MFEMROMHandler *h;
   Rom(const Setup &q, int every = 1) : s(q), t(q.types, q.nc)
   {
      std::ostringstream o; o << "{basis: {prefix: base, number_of_basis: " << s.dflt; if (s.tags) { o << ", tags: ["; for (int r = s.nref() - 1; r >= 0; r--) if (r != 1) o << "{name: " << s.tag(r) << ", number_of_basis: " << s.nbr(r) << "}, "; o << "{name: other, number_of_basis: 7}]"; }
      if (s.more.size()) o << ", " << s.more;
      o << "}, model_reduction: {ordering: " << (s.byvar ? "variable" : "domain") << ", linear_solver_type: " << s.solver << ", preconditioner: " << s.prec << ", save_operator: {level: " << s.level << ", prefix: op}}, solver: {max_iter: 17, relative_tolerance: 0.5, absolute_tolerance: 0.25, use_restart: true}}";
      config.dict_ = YAML::Load(o.str());
      CAROM::model::bases().clear();
      for (int r = 0; r < s.nref(); r++)
      {
         B.push_back(sym(s.refdim(r), s.nbr(r), "B" + I(r) + "_", every, r)); CAROM::Matrix m(s.refdim(r), s.nbr(r) + r % 2, false);   // the file may hold more vectors than are used
         for (int i = 0; i < m.numRows(); i++) for (int j = 0; j < m.numColumns(); j++) m(i, j) = j < s.nbr(r) ? B[r](i, j) : -9.0; CAROM::model::bases()["base_" + s.tag(r)] = m;
      }
      voff.Append(0); doff.Append(0); std::vector<S> names; for (int v = 0; v < s.nv; v++) names.push_back(s.name(v));
      for (int m = 0; m < s.ns(); m++) { for (int v = 0; v < s.nv; v++) voff.Append(voff.Last() + s.dim(s.types[m], v)); doff.Append(doff.Last() + s.cdim(s.types[m])); }
      h = new MFEMROMHandler(&t, voff, names, s.sep); sx::check(!h->BasisLoaded(), "basis not loaded yet"); h->LoadReducedBasis(); sx::check(h->BasisLoaded(), "basis loaded");
   }
   ~Rom() { delete h; }
   const Array<int> &foff() const { return s.sep ? voff : doff; }                    // layout of the full-order vectors
   int fom(int m, int v) const { return s.sep ? m * s.nv + v : m; }
   template <class F> void each(F f) { for (int m = 0; m < s.ns(); m++) for (int v = 0; v < (s.sep ? s.nv : 1); v++) f(m, v, s.block(m, v)); }
   const DenseMatrix &dom(int k) { const DenseMatrix *r = nullptr; each([&](int m, int v, int b) { if (b == k) r = &B[s.ref(m, v)]; }); return *r; }
   int off(int k) { int o = 0; for (int b = 0; b < k; b++) o += dom(b).Width(); return o; }
};
static Vector ref(const DenseMatrix &M, const Vector &x, bool tr) { Vector y(tr ? M.Width() : M.Height()); for (int i = 0; i < y.Size(); i++) { double s = 0; for (int j = 0; j < x.Size(); j++) s += (tr ? M(j, i) : M(i, j)) * x[j]; y[i] = s; } return y; }
static SparseMatrix *sparse(const DenseMatrix &M) { SparseMatrix *A = new SparseMatrix(M.Height(), M.Width()); for (int i = 0; i < M.Height(); i++) for (int j = 0; j < M.Width(); j++) A->Set(i, j, M(i, j)); A->Finalize(0); return A; }
static DenseMatrix rtap(const DenseMatrix &R, const DenseMatrix &A, const DenseMatrix &P) { DenseMatrix M(R.Width(), P.Width()); for (int i = 0; i < M.Height(); i++) for (int j = 0; j < M.Width(); j++) { double s = 0; for (int a = 0; a < A.Height(); a++) for (int b = 0; b < A.Width(); b++) s += R(a, i) * A(a, b) * P(b, j); M(i, j) = s; } return M; }
static Setup chooseSetup(int maxvar = 3)
{
   Setup s; int k = sx::choose("composition", 0, 3); s.types = k == 0 ? std::vector<int>{0} : k == 1 ? std::vector<int>{1, 0} : k == 2 ? std::vector<int>{0, 1, 0} : std::vector<int>{1, 1, 0, 2}; s.nc = k == 0 ? 1 : k == 3 ? 3 : 2;
   s.nv = sx::choose("variables", 1, maxvar); s.sep = sx::choose("separate", 0, 1); s.byvar = sx::choose("by variable", 0, 1); s.tags = sx::choose("tags", 0, 1); return s;
}
// numbering of the blocks, sizes, and whose basis each block uses
SX_CASE(blocks)
{
   Setup s = chooseSetup(); Rom r(s, 2); const Array<int> &o = *r.h->GetBlockOffsets(); std::set<int> seen;
   sx::check(o.Size() == s.nblk() + 1 && o[0] == 0, "number of blocks"); sx::check(r.h->GetNumSubdomains() == s.ns() && r.h->GetNumROMRefComps() == s.nc && r.h->GetNumROMRefBlocks() == s.nref() && r.h->SeparateVariable() == s.sep, "counts");
   sx::check((r.h->GetOrdering() == ROMOrderBy::VARIABLE) == s.byvar, "ordering as asked");
   for (int c = 0; c < s.nref(); c++) { DenseMatrix *b; r.h->GetReferenceBasis(c, b); eqm(*b, r.B[c], "reference basis" + I(c)); sx::check(r.h->GetRefNumBasis(c) == s.nbr(c), "number of reference basis vectors" + I(c)); sx::check(r.h->GetRefBasisTag(c).print() == s.tag(c), "tag" + I(c)); }
   for (int m = 0; m < s.ns(); m++) sx::check(r.h->GetRefIndexForSubdomain(m) == s.types[m], "component of a subdomain");
   r.each([&](int m, int v, int k) {
      const int b = r.h->GetBlockIndex(m, v); sx::check(b == k, "block of a subdomain and variable" + I(m, v)); seen.insert(b); int m2 = -5, v2 = -5; r.h->GetDomainAndVariableIndex(b, m2, v2); sx::check(m2 == m && (s.sep ? v2 == v : v2 == -1), "subdomain and variable of a block" + I(m, v));
      sx::check(o[b + 1] - o[b] == s.nbr(s.ref(m, v)), "block size" + I(m, v)); DenseMatrix *d, *c; r.h->GetDomainBasis(b, d); r.h->GetReferenceBasis(s.ref(m, v), c); sx::check(d == c, "a subdomain uses its component's basis" + I(m, v)); });
   sx::check((int)seen.size() == s.nblk(), "every block is used once");
   if (!s.sep) for (int m = 0; m < s.ns(); m++) { sx::check(r.h->GetBlockIndex(m) == m, "block of a subdomain"); for (int v = 0; v < s.nv; v++) sx::check(r.h->GetBlockIndex(m, v) == m, "variables share the block of their subdomain"); }
}
// the number of basis vectors has to be given
SX_CASE(basis_numbers)
{
   Setup s = chooseSetup(2); s.dflt = -1; s.tags = false; if (sx::choose("other tags", 0, 1)) s.more = "tags: [{name: other, number_of_basis: 3}]"; sx::check(sx::rejects([&] { Rom r(s); }), "no number of basis vectors given");
}
// vectors: projection and lifting
SX_CASE(vectors)
{
   Setup s = chooseSetup(2); Rom r(s, 1);
   for (int c = 0; c < s.nref(); c++)
   {
      Vector x = vec(s.refdim(c), "x" + I(c) + "_"), y(s.nbr(c)), z = vec(s.nbr(c), "z" + I(c) + "_"), w(s.refdim(c)); y = 3.0; w = -3.0; r.h->ProjectToRefBasis(c, x, y); eqv(y, ref(r.B[c], x, true), "projection on a reference basis"); r.h->LiftUpFromRefBasis(c, z, w); eqv(w, ref(r.B[c], z, false), "lift from a reference basis");
   }
   Vector X = vec(r.foff().Last(), "X"), Z = vec(r.h->GetBlockOffsets()->Last(), "Z"); BlockVector bx(X.GetData(), r.foff()), bz(Z.GetData(), *r.h->GetBlockOffsets()), up(r.foff()); up = 5.0; BlockVector *red = sx::choose("again", 0, 1) ? new BlockVector(r.foff()) : nullptr;
   r.h->ProjectGlobalToDomainBasis(&bx, red); r.h->LiftUpGlobal(bz, up); r.h->ProjectRHSOnReducedBasis(&bx); sx::check(red->NumBlocks() == s.nblk() && red->Size() == Z.Size(), "size of the reduced vector");
   r.each([&](int m, int v, int k) {
      Vector a = bx.GetBlock(r.fom(m, v)), b = bz.GetBlock(k); const DenseMatrix &B = r.dom(k); eqv(red->GetBlock(k), ref(B, a, true), "projected block"); eqv(r.h->GetReducedRHS()->GetBlock(k), ref(B, a, true), "projected right-hand side"); eqv(up.GetBlock(r.fom(m, v)), ref(B, b, false), "lifted block");
      Vector y(B.Width()), w(B.Height()); r.h->ProjectToDomainBasis(k, a, y); eqv(y, red->GetBlock(k), "projection of one block"); r.h->LiftUpFromDomainBasis(k, b, w); eqv(w, up.GetBlock(r.fom(m, v)), "lift of one block"); });
   delete red;
}
// matrices: every way of asking for projected blocks gives B_i^T A_ij B_j; an absent block is zero
static void clear(Array2D<Operator *> &m) { for (int i = 0; i < m.NumRows(); i++) for (int j = 0; j < m.NumCols(); j++) delete m(i, j); }
struct Blocks
{
   Array2D<Operator *> ops; std::vector<std::vector<DenseMatrix>> d; int n;
   Blocks(std::vector<int> sizes, const S &nm, int absent, int every = 3) : ops(sizes.size(), sizes.size()), n(sizes.size())
   { for (int i = 0, k = 0; i < n; i++) { d.emplace_back(); for (int j = 0; j < n; j++, k++) { DenseMatrix A = sym(sizes[i], sizes[j], nm + I(i, j) + "_", every, k); if (absent >= 0 && k % 3 == absent) { A = 0.0; ops(i, j) = nullptr; } else ops(i, j) = sparse(A); d[i].push_back(A); } } }
   ~Blocks() { clear(ops); }
};
static void same(Array2D<SparseMatrix *> &got, const Blocks &A, std::vector<const DenseMatrix *> B, const S &l) { sx::check(got.NumRows() == A.n && got.NumCols() == A.n, l + " size"); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) { sx::check(got(i, j) && got(i, j)->Height() == B[i]->Width() && got(i, j)->Width() == B[j]->Width(), l + " block size"); got(i, j)->Finalize(); eqs(*got(i, j), rtap(*B[i], A.d[i][j], *B[j]), l + I(i, j)); } }
SX_CASE(matrices)
{
   Setup s = chooseSetup(2); if (s.ns() == 4) return; Rom r(s, 3); const int nb = s.sep ? s.nv : 1, absent = sx::choose("absent", -1, 1); Array2D<SparseMatrix *> got;
   std::vector<int> all, cs, is; std::vector<const DenseMatrix *> Ball, Bc, Bi;
   for (int c = s.nc - 1; c >= 0; c--)
   {
      cs.clear(); Bc.clear(); for (int v = 0; v < nb; v++) { cs.push_back(s.refdim(c * nb + v)); Bc.push_back(&r.B[c * nb + v]); } Blocks A(cs, "c" + I(c), absent); r.h->ProjectComponentToRefBasis(c, A.ops, got); same(got, A, Bc, "component, reference basis");
      for (int e = 0; e < s.nc; e++) { is = cs; Bi = Bc; for (int v = 0; v < nb; v++) { is.push_back(s.refdim(e * nb + v)); Bi.push_back(&r.B[e * nb + v]); } Blocks A2(is, "i" + I(c, e), absent, 5); r.h->ProjectInterfaceToRefBasis(c, e, A2.ops, got); same(got, A2, Bi, "interface, reference basis"); }
   }
   for (int m = 0; m < s.ns(); m++)
   {
      cs.clear(); Bc.clear(); for (int v = 0; v < nb; v++) { cs.push_back(s.refdim(s.ref(m, v))); Bc.push_back(&r.dom(s.block(m, v))); } Blocks A(cs, "m" + I(m), absent); r.h->ProjectComponentToDomainBasis(m, A.ops, got); same(got, A, Bc, "subdomain");
      int e = (m + 1) % s.ns(); is = cs; Bi = Bc; for (int v = 0; v < nb; v++) { is.push_back(s.refdim(s.ref(e, v))); Bi.push_back(&r.dom(s.block(e, v))); } Blocks A2(is, "j" + I(m), absent, 5); r.h->ProjectInterfaceToDomainBasis(m, e, A2.ops, got); same(got, A2, Bi, "interface of two subdomains");
   }
   for (int k = 0; k < s.nblk(); k++) { all.push_back(r.dom(k).Height()); Ball.push_back(&r.dom(k)); }
   Blocks A(all, "g", absent, 7); r.h->ProjectGlobalToDomainBasis(A.ops, got); same(got, A, Ball, "whole system");
   for (int i = 0; i < s.nblk(); i++) { int j = s.nblk() - 1 - i; SparseMatrix *p = r.h->ProjectToDomainBasis(i, j, A.ops(i, j)); p->Finalize(); eqs(*p, rtap(*Ball[i], A.d[i][j], *Ball[j]), "single block"); delete p; }
   if (s.sep)
      for (int v = 0; v < s.nv; v++) for (int w = 0; w < s.nv; w++)
      {
         Array2D<Operator *> M(s.ns(), s.ns()); std::vector<std::vector<DenseMatrix>> D; for (int m = 0; m < s.ns(); m++) { D.emplace_back(); for (int n = 0; n < s.ns(); n++) { D[m].push_back(sym(r.dom(s.block(m, v)).Height(), r.dom(s.block(n, w)).Height(), "v" + I(v, w) + I(m, n), 5, m)); M(m, n) = sparse(D[m][n]); } }
         r.h->ProjectVariableToDomainBasis(v, w, M, got); sx::check(got.NumRows() == s.ns() && got.NumCols() == s.ns(), "one variable pair size");
         for (int m = 0; m < s.ns(); m++) for (int n = 0; n < s.ns(); n++) { got(m, n)->Finalize(); eqs(*got(m, n), rtap(r.dom(s.block(m, v)), D[m][n], r.dom(s.block(n, w))), "one variable pair" + I(m, n)); } clear(M);
      }
   for (int i = 0; i < got.NumRows(); i++) for (int j = 0; j < got.NumCols(); j++) delete got(i, j);
}
// ---- the reduced system and its solution
static DenseMatrix whole(Rom &r, const Blocks &A) { const int n = r.h->GetBlockOffsets()->Last(); DenseMatrix M(n); M = 0.0; for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) M.CopyMN(rtap(r.dom(i), A.d[i][j], r.dom(j)), r.off(i), r.off(j)); return M; }
static Blocks *system(Rom &r, int absent, const S &nm = "g") { std::vector<int> all; for (int k = 0; k < r.s.nblk(); k++) all.push_back(r.dom(k).Height()); return new Blocks(all, nm, absent, 7); }
static void solveAndCheck(Rom &r, const DenseMatrix &M, const S &l)
{
   eqs(*r.h->GetOperator(), M, l + ": the reduced operator"); sx::check(r.h->OperatorLoaded(), "operator loaded");
   const int n = M.Height(); Vector X = vec(r.foff().Last(), "F"); BlockVector rhs(X.GetData(), r.foff()), U(r.foff()); U = 9.0; std::vector<double> z; for (int i = 0; i < n; i++) z.push_back(sx::real("sol" + I(i))); answer = [z](int i) { return z[i]; };
   r.h->ProjectRHSOnReducedBasis(&rhs); asked = Asked(); MUMPSSolver::solve() = [&](const MUMPSSolver &m, const Vector &b, Vector &x) { record("MUMPS", m.op, nullptr, b, x); }; r.h->Solve(&U);
   sx::check(asked.times == 1 && asked.who == (r.s.solver == "cg" ? "CGSolver" : r.s.solver == "minres" ? "MINRESSolver" : "MUMPS"), l + ": the solver asked for");
   sx::check(asked.b.Size() == n && asked.x0.Size() == n && asked.op && asked.op->Height() == n && asked.op->Width() == n, l + ": system size");
   if (r.s.solver == "direct") { sx::check(parallelOf.count(asked.op), "direct operator"); if (parallelOf.count(asked.op)) eqs(*parallelOf[asked.op], M, l + ": the system given to the direct solver"); }
   else { Vector t = vec(n, "t"), y(n), yr(n); asked.op->Mult(t, y); for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) q += M(i, j) * t[j]; yr[i] = q; } eqv(y, yr, l + ": the system given to the solver"); sx::check(asked.rtol == 0.5 && asked.atol == 0.25 && asked.maxit == 17, "tolerances as asked"); sx::check((asked.prec != nullptr) == (r.s.prec != "none"), "preconditioner as asked"); }
   for (int i = 0; i < n; i++) sx::eq(asked.x0[i], 0.0, l + ": initial guess");
   r.each([&](int m, int v, int k) { Vector f = rhs.GetBlock(r.fom(m, v)), q = ref(r.dom(k), f, true), zz(r.dom(k).Width()); for (int i = 0; i < zz.Size(); i++) { sx::eq(asked.b[r.off(k) + i], q[i], l + ": right-hand side"); zz[i] = z[r.off(k) + i]; sx::eq(r.h->GetReducedSolution()->GetBlock(k)[i], zz[i], l + ": reduced solution"); } eqv(U.GetBlock(r.fom(m, v)), ref(r.dom(k), zz, false), l + ": lifted solution"); });
}
static Setup small(bool two = true) { Setup s; s.types = sx::choose("reversed", 0, 1) ? std::vector<int>{1, 0} : std::vector<int>{0, 1, 0}; s.nc = 2; s.nv = 2; s.sep = sx::choose("separate", 0, 1); s.byvar = s.sep && two && sx::choose("by variable", 0, 1); return s; }
SX_CASE(solve)
{
   Setup s = small(); int k = sx::choose("solver", 0, 3); s.solver = k == 1 ? "minres" : k == 2 ? "direct" : "cg"; s.prec = k == 3 ? "gs" : "none"; Rom r(s, 5);
   for (int again = 0; again < 2; again++) { Blocks *A = system(r, again ? -1 : 1, again ? "h" : "g"); r.h->ProjectOperatorOnReducedBasis(A->ops); solveAndCheck(r, whole(r, *A), again ? "second system" : "first system"); delete A; }
}
SX_CASE(operator_file)
{
   Setup s = small(); s.level = "global"; if (sx::choose("direct", 0, 1)) s.solver = "direct"; const int before = sx::choose("operator loaded before", 0, 1), n1 = 0; (void)n1; S file = "c19_" + I((int)getpid()) + ".h5"; DenseMatrix M;
   { Rom r(s, 5); Blocks *A = system(r, 1); r.h->ProjectOperatorOnReducedBasis(A->ops); M = whole(r, *A); r.h->SaveOperator(file); eqs(*r.h->GetOperator(), M, "saving keeps the operator"); delete A; }
   Rom r(s, 5); if (before) { Blocks *A = system(r, 0, "o"); r.h->ProjectOperatorOnReducedBasis(A->ops); delete A; }
   r.h->LoadOperatorFromFile(file); remove(file.c_str()); solveAndCheck(r, M, "loaded system");
}
// ---- more vectors appended to the basis of one block
SX_CASE(appended)
{
   Setup s = small(); s.solver = sx::choose("direct", 0, 1) ? "direct" : "cg"; Rom r(s, 5); const int which = sx::choose("which", 0, s.nref() - 1), add = sx::choose("how many", 1, 2); const int rounds = sx::choose("rounds", 1, 2);
   for (int q = 0; q < rounds; q++) { DenseMatrix E = sym(s.refdim(which), add, "E" + I(q) + "_", 2), N(r.B[which].Height(), r.B[which].Width() + add); N.CopyMN(r.B[which], 0, 0); N.CopyMN(E, 0, r.B[which].Width()); r.h->AppendReferenceBasis(which, E); E = 77.0; r.B[which] = N; }
   DenseMatrix *b; for (int c = 0; c < s.nref(); c++) { r.h->GetReferenceBasis(c, b); eqm(*b, r.B[c], "basis after appending" + I(c)); sx::check(r.h->GetRefNumBasis(c) == r.B[c].Width(), "number of basis vectors after appending" + I(c)); }
   const Array<int> &o = *r.h->GetBlockOffsets(); for (int k = 0; k < s.nblk(); k++) { sx::check(o[k + 1] - o[k] == r.dom(k).Width(), "block size after appending" + I(k)); r.h->GetDomainBasis(k, b); sx::check(b->Width() == r.dom(k).Width(), "domain basis after appending" + I(k)); }
   Blocks *A = system(r, 1); r.h->ProjectOperatorOnReducedBasis(A->ops); solveAndCheck(r, whole(r, *A), "after appending"); delete A;
}
// block preconditioners see the block system (concrete operator: they factorise it)
SX_CASE(block_preconditioners)
{
   Setup s; s.types = {0, 1, 0}; s.nc = 2; s.nv = 2; s.sep = sx::choose("separate", 0, 1); s.byvar = s.sep && sx::choose("by variable", 0, 1); s.prec = sx::choose("jacobi", 0, 1) ? "block_jacobi" : "block_gs"; Rom r(s, 0); const int w = s.sep ? 1 : 0;
   if (sx::choose("appended", 0, 1)) { DenseMatrix E(s.refdim(w), 1); E = 0.125; E(r.B[w].Width(), 0) = 2.0; DenseMatrix N(E.Height(), r.B[w].Width() + 1); N.CopyMN(r.B[w], 0, 0); N.CopyMN(E, 0, N.Width() - 1); r.h->AppendReferenceBasis(w, E); r.B[w] = N; }
   std::vector<int> all; for (int k = 0; k < s.nblk(); k++) all.push_back(r.dom(k).Height()); Blocks A(all, "g", -1, 0); for (int k = 0; k < s.nblk(); k++) { for (int i = 0; i < all[k]; i++) A.d[k][k](i, i) += 40; delete A.ops(k, k); A.ops(k, k) = sparse(A.d[k][k]); }
   r.h->ProjectOperatorOnReducedBasis(A.ops); solveAndCheck(r, whole(r, A), "block preconditioner");
}
// ---- nonlinear solve: what Newton is given, the initial guess, and the lifted answer
struct Cube : public Operator { Cube(int n) : Operator(n) {} void Mult(const Vector &x, Vector &y) const override { y.SetSize(x.Size()); for (int i = 0; i < x.Size(); i++) y[i] = x[i] * x[i] * x[i]; } };
SX_CASE(nonlinear)
{
   Setup s = small(); s.solver = sx::choose("direct", 0, 1) ? "direct" : "cg"; Rom r(s, 3); const int n = r.h->GetBlockOffsets()->Last(); Cube c(n);
   Vector F = vec(r.foff().Last(), "F"), G = vec(r.foff().Last(), "G"); BlockVector f(F.GetData(), r.foff()), U(r.foff()); for (int i = 0; i < G.Size(); i++) U[i] = G[i]; std::vector<double> z; for (int i = 0; i < n; i++) z.push_back(sx::real("sol" + I(i))); answer = [z](int i) { return z[i]; };
   r.h->ProjectRHSOnReducedBasis(&f); asked = Asked(); r.h->NonlinearSolve(c, &U); BlockVector g(G.GetData(), r.foff());
   sx::check(asked.times == 1 && asked.who == "NewtonSolver" && asked.op == &c, "Newton solves the given problem"); sx::check(asked.rtol == 0.5 && asked.atol == 0.25 && asked.maxit == 17, "tolerances as asked"); sx::check(s.solver == "cg" ? dynamic_cast<const CGSolver *>(asked.prec) != nullptr : dynamic_cast<const MUMPSSolver *>(asked.prec) != nullptr, "linear solver as asked");
   sx::check(asked.b.Size() == n && asked.x0.Size() == n, "size of the problem");
   r.each([&](int m, int v, int k) { Vector a = ref(r.dom(k), f.GetBlock(r.fom(m, v)), true), x0 = ref(r.dom(k), g.GetBlock(r.fom(m, v)), true), zz(a.Size()); for (int i = 0; i < zz.Size(); i++) { zz[i] = z[r.off(k) + i]; sx::eq(asked.b[r.off(k) + i], a[i], "right-hand side"); sx::eq(asked.x0[r.off(k) + i], x0[i], "restart from the projected state"); } eqv(U.GetBlock(r.fom(m, v)), ref(r.dom(k), zz, false), "lifted solution"); });
}
// ---- supremizers: one number per component's pressure
SX_CASE(supremizers)
{
   Setup s; s.types = {1, 0, 1}; s.nc = 2; s.nv = 2; s.sep = true; s.byvar = sx::choose("by variable", 0, 1); s.tags = false; const int d = sx::choose("default", 0, 1), l = sx::choose("listed", 0, 3);
   s.more = S(d ? "number_of_supremizer: 5, " : "") + "tags: [" + (l & 1 ? "{name: alpha_pres, number_of_supremizer: 3, number_of_basis: 1}, " : "{name: alpha_pres, number_of_basis: 1}, ") + (l & 2 ? "{name: beta_pres, number_of_supremizer: 4}, " : "") + "{name: alpha_vel, number_of_supremizer: 9}, {name: alpha, number_of_supremizer: 8}]";
   config.dict_ = YAML::Load("{basis: {prefix: base, number_of_basis: 2, " + s.more + "}, model_reduction: {ordering: " + (s.byvar ? "variable" : "domain") + "}}");
   Topo t(s.types, 2); Array<int> o; o.Append(0); for (int m = 0; m < 3; m++) for (int v = 0; v < 2; v++) o.Append(o.Last() + s.dim(s.types[m], v)); MFEMROMHandler h(&t, o, {"vel", "pres"}, true);
   sx::check(h.GetRefNumBasis(0) == 2 && h.GetRefNumBasis(1) == 1 && h.GetRefNumBasis(2) == 2 && h.GetRefNumBasis(3) == 2, "basis numbers"); Array<int> rs, ds; h.ParseSupremizerInput(rs, ds);
   const int a = l & 1 ? 3 : d ? 5 : 1, b = l & 2 ? 4 : d ? 5 : 2; sx::check(rs.Size() == 2 && rs[0] == a && rs[1] == b, "supremizers per component"); sx::check(ds.Size() == 3 && ds[0] == b && ds[1] == a && ds[2] == b, "supremizers per subdomain");
}
// what cannot be served is refused
SX_CASE(refused)
{
   Setup s; s.types = {0}; s.nc = 1; s.nv = 1; s.sep = true; s.byvar = false; const int k = sx::choose("what", 0, 2); if (k == 0) s.solver = "lu"; if (k == 1) s.level = "everything";
   if (k < 2) sx::check(sx::rejects([&] { Rom r(s); }), "unknown choice is refused");
   else { Rom r(s); sx::check(sx::rejects([&] { DenseMatrix *b; r.h->GetReferenceBasis(1, b); }) && sx::rejects([&] { DenseMatrix *b; r.h->GetDomainBasis(-1, b); }), "unknown block is refused"); }
}
