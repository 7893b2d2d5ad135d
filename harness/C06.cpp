// Reduced-order projection kernels: R^T A P and its row-restricted forms
#include "h.hpp"
#include "linalg_utils.hpp"

// an abstract operator (not a matrix class)
struct Op : public Operator { DenseMatrix A; Op(const DenseMatrix &a) : Operator(a.Height(), a.Width()), A(a) {} void Mult(const Vector &x, Vector &y) const override { for (int i = 0; i < height; i++) { double s = 0; for (int j = 0; j < width; j++) s += A(i, j) * x[j]; y[i] = s; } } };

static void rtap(int h, int w, int r, int p)
{
   DenseMatrix R = mat(h, r, "R"), A = mat(h, w, "A"), P = mat(w, p, "P");
   DenseMatrix ref = refRtAP(R, A, P);
   Op op(A);
   DenseMatrix B; mfem::RtAP(R, op, P, B); eqm(B, ref, "RtAP of an operator");
   DenseMatrix C(r + 1, p + 2); C = 7.0; mfem::RtAP(R, A, P, C); eqm(C, ref, "RtAP into a matrix of another size");
   DenseMatrix *D = DenseRtAP(R, op, P); eqm(*D, ref, "DenseRtAP"); delete D;
   SparseMatrix *E = SparseRtAP(R, op, P); eqs(*E, ref, "SparseRtAP"); delete E;
   double wgt = sx::real("w");
   DenseMatrix F = mat(r, p, "F"), Fr(F); AddwRtAP(R, op, P, F, wgt);
   for (int i = 0; i < r; i++) for (int j = 0; j < p; j++) Fr(i, j) += wgt * ref(i, j);
   eqm(F, Fr, "AddwRtAP accumulates (dense)");
   SparseMatrix G(r, p); DenseMatrix Gr(r, p); Gr = 0.0;
   for (int i = 0; i < r; i++) { double g = sx::real("G" + I(i)); G.Set(i, i % p, g); Gr(i, i % p) = g; }
   for (int i = 0; i < r; i++) for (int j = 0; j < p; j++) Gr(i, j) += wgt * ref(i, j);
   AddwRtAP(R, op, P, G, wgt); G.Finalize(0); eqs(G, Gr, "AddwRtAP accumulates (sparse)");
   // default weight is one
   DenseMatrix H(r, p); H = 0.0; AddwRtAP(R, op, P, H); eqm(H, ref, "AddwRtAP with the default weight");
   // inputs untouched
   eqm(R, mat(h, r, "R"), "R unchanged"); eqm(P, mat(w, p, "P"), "P unchanged"); eqm(A, mat(h, w, "A"), "A unchanged");
}
SX_CASE(rtap_3x2) { rtap(3, 2, 2, 2); }
SX_CASE(rtap_2x3_tall) { rtap(2, 3, 3, 2); }
SX_CASE(rtap_1x1) { rtap(1, 1, 1, 1); }
SX_CASE_THOROUGH(rtap_4x4) { rtap(4, 4, 3, 4); }

// row-restricted products; rows may repeat and be in any order
static void rows(int h, int w, int n)
{
   DenseMatrix M = mat(h, w, "M");
   Array<int> rw = chooseArr(n, "row", 0, h - 1);
   Vector x = vec(w, "x"), y, yr(n);
   MultSubMatrix(M, rw, x, y);
   for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < w; j++) s += M(rw[i], j) * x[j]; yr[i] = s; }
   eqv(y, yr, "MultSubMatrix");
   Vector y2(n + 2); y2 = 3.0; MultSubMatrix(M, rw, x, y2); eqv(y2, yr, "MultSubMatrix resizes its result");
   Vector z = vec(n, "z"), u = vec(w, "u"), ur(u), v(w); v = 5.0;
   Vector t(w); for (int j = 0; j < w; j++) { double s = 0; for (int i = 0; i < n; i++) s += M(rw[i], j) * z[i]; t[j] = s; ur[j] += s; }
   AddMultTransposeSubMatrix(M, rw, z, u); eqv(u, ur, "AddMultTransposeSubMatrix accumulates");
   MultTransposeSubMatrix(M, rw, z, v); eqv(v, t, "MultTransposeSubMatrix overwrites");
   eqm(M, mat(h, w, "M"), "matrix unchanged");
}
SX_CASE(rows_3x2_2) { rows(3, 2, 2); }
SX_CASE(rows_2x3_3) { rows(2, 3, 3); }
SX_CASE(rows_1x1_2) { rows(1, 1, 2); }
SX_CASE_THOROUGH(rows_4x3_3) { rows(4, 3, 3); }

static void subrtap(int hr, int wr, int hp, int wp, int n, int m)
{
   DenseMatrix R = mat(hr, wr, "R"), P = mat(hp, wp, "P"), A = mat(n, m, "A");
   Array<int> rr = chooseArr(n, "Rrow", 0, hr - 1), pr = chooseArr(m, "Prow", 0, hp - 1);
   DenseMatrix Rs(n, wr), Ps(m, wp);
   for (int i = 0; i < n; i++) for (int j = 0; j < wr; j++) Rs(i, j) = R(rr[i], j);
   for (int i = 0; i < m; i++) for (int j = 0; j < wp; j++) Ps(i, j) = P(pr[i], j);
   DenseMatrix ref = refRtAP(Rs, A, Ps);
   DenseMatrix B = mat(wr, wp, "B"), Br(B); Br += ref;
   AddSubMatrixRtAP(R, rr, A, P, pr, B); eqm(B, Br, "AddSubMatrixRtAP accumulates (dense)");
   SparseMatrix C(wr, wp); DenseMatrix Cr(wr, wp); Cr = 0.0;
   double c = sx::real("c"); C.Set(0, wp - 1, c); Cr(0, wp - 1) = c; Cr += ref;
   AddSubMatrixRtAP(R, rr, A, P, pr, C); C.Finalize(0); eqs(C, Cr, "AddSubMatrixRtAP accumulates (sparse)");
   eqm(A, mat(n, m, "A"), "A unchanged");
}
SX_CASE(subrtap_a) { subrtap(2, 2, 3, 1, 2, 2); }
SX_CASE(subrtap_b) { subrtap(3, 1, 2, 3, 2, 1); }
SX_CASE(subrtap_c) { subrtap(2, 3, 2, 2, 1, 3); }
SX_CASE_THOROUGH(subrtap_d) { subrtap(3, 2, 3, 3, 2, 2); }

SX_CASE(basis_element)
{
   DenseMatrix Bm = mat(4, 3, "B");
   Array<int> vd(3); 
   for (int i = 0; i < 3; i++) { int v = sx::choose("vdof" + I(i), -4, 3); vd[i] = v; }
   for (int c = 0; c < 3; c++)
   {
      Vector e; GetBasisElement(Bm, c, vd, e);
      Vector r(3); for (int i = 0; i < 3; i++) r[i] = vd[i] >= 0 ? Bm(vd[i], c) : -Bm(-1 - vd[i], c);
      eqv(e, r, "basis element of column " + I(c));
   }
   eqm(Bm, mat(4, 3, "B"), "basis unchanged");
}
// the result is a copy: changing it leaves the basis alone
SX_CASE(basis_element_copy)
{
   DenseMatrix Bm = mat(3, 2, "B"); Array<int> vd(2); vd[0] = 2; vd[1] = 0;
   Vector e; GetBasisElement(Bm, 1, vd, e); e = 9.0; eqm(Bm, mat(3, 2, "B"), "basis unchanged after editing the element vector");
}
// AddToBlockMatrix scatters every present block to the right place and accumulates
SX_CASE(block_scatter)
{
   Array<int> ro(4), co(4); ro[0] = co[0] = 0; ro[1] = 1; ro[2] = 3; ro[3] = 4; co[1] = 2; co[2] = 3; co[3] = 5;
   int r0 = sx::choose("r0", 0, 2), r1 = sx::choose("r1", 0, 2), c0 = sx::choose("c0", 0, 2), c1 = sx::choose("c1", 0, 2);
   int present = sx::choose("present", 0, 15), preset = sx::choose("preset", 0, 1);
   sx::assume(r0 != r1 && c0 != c1);
   int ri[2] = {r0, r1}, ci[2] = {c0, c1};
   BlockMatrix bm(ro, co); bm.owns_blocks = 1;
   DenseMatrix ref(4, 5); ref = 0.0;
   if (preset) { SparseMatrix *p = new SparseMatrix(ro[r0 + 1] - ro[r0], co[c0 + 1] - co[c0]); double v = sx::real("pre"); p->Set(0, 0, v); bm.SetBlock(r0, c0, p); ref(ro[r0], co[c0]) = v; }
   MatrixBlocks mb(2, 2);
   for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (present >> (2 * i + j) & 1)
   {
      int h = ro[ri[i] + 1] - ro[ri[i]], w = co[ci[j] + 1] - co[ci[j]];
      SparseMatrix *s = new SparseMatrix(h, w);
      for (int a = 0; a < h; a++) for (int b = 0; b < w; b++) { double v = sx::real("m" + I(i, j) + I(a, b)); s->Set(a, b, v); ref(ro[ri[i]] + a, co[ci[j]] + b) += v; }
      s->Finalize(0); mb(i, j) = s;
   }
   Array<int> ra(ri, 2), ca(ci, 2);
   AddToBlockMatrix(ra, ca, mb, bm);
   bm.Finalize(0);
   DenseMatrix got(4, 5); got = 0.0;
   for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!bm.IsZeroBlock(i, j))
   { DenseMatrix d; bm.GetBlock(i, j).ToDenseMatrix(d); sx::check(d.Height() == ro[i + 1] - ro[i] && d.Width() == co[j + 1] - co[j], "block size"); for (int a = 0; a < d.Height(); a++) for (int b = 0; b < d.Width(); b++) got(ro[i] + a, co[j] + b) = d(a, b); }
   eqm(got, ref, "block matrix");
}
