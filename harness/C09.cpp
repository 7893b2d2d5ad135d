// C09: block smoothers act as the block-triangular (or block-diagonal) solves they stand for
#include "h.hpp"
#include "block_smoother.hpp"
#include <memory>
struct BM
{
   Array<int> off; std::unique_ptr<BlockMatrix> m; DenseMatrix d; int nb;
   // zero: bit (i*nb+j) set => block absent;  dense off-diagonal blocks unless thin (one entry per row)
   BM(const std::vector<int> &sizes, const S &n, unsigned zero = 0, double olo = -1, double ohi = 1, bool emptyblocks = false)
   {
      nb = sizes.size(); off.SetSize(nb + 1); off[0] = 0;
      for (int b = 0; b < nb; b++) off[b + 1] = off[b] + sizes[b];
      d.SetSize(off[nb]); d = 0.0;
      m.reset(new BlockMatrix(off)); m->owns_blocks = true;
      for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++)
      {
         SparseMatrix *s = new SparseMatrix(sizes[i], sizes[j]);
         const bool z = i != j && (zero >> (i * nb + j) & 1);
         if (z && !emptyblocks) { delete s; continue; }
         if (!z) for (int a = 0; a < sizes[i]; a++) for (int b = 0; b < sizes[j]; b++)
         {
            double v = (i == j && a == b) ? sx::real(n + I(off[i] + a, off[j] + b), 1, 2) : (i == j) ? sx::real(n + I(off[i] + a, off[j] + b), -0.5, 0.5) : sx::real(n + I(off[i] + a, off[j] + b), olo, ohi);
            s->Set(a, b, v); d(off[i] + a, off[j] + b) = v;
         }
         s->Finalize(0);
         m->SetBlock(i, j, s);
      }
   }
   // rows of block i of  A_ii y_i + sum_j A_ij w_j  with w = yn for j "already done", y0 otherwise
   void rows(const Vector &x, const Vector &yn, const Vector &y0, bool forw, const S &l) const
   {
      for (int i = 0; i < nb; i++) for (int r = off[i]; r < off[i + 1]; r++)
      {
         double s = 0;
         for (int j = 0; j < nb; j++) for (int c = off[j]; c < off[j + 1]; c++)
            s += d(r, c) * (((forw ? j <= i : j >= i)) ? yn[c] : y0[c]);
         sx::eq(s, x[r], l + " row " + I(r));
      }
   }
};
static void gs(const std::vector<int> &sz, unsigned zero, int type, int it, bool iter, bool empty = false)
{
   sx_nonzero_denominators(true);
   BM a(sz, "A", zero, -1, 1, empty);
   const int n = a.off.Last();
   Vector x = vec(n, "x"), y = vec(n, "y"), y0(y), x0(x);
   BlockGSSmoother s(*a.m, type, it); s.iterative_mode = iter;
   s.Mult(x, y);
   // the sweeps one by one, through the smoother's own sweep (checked in one_sweep)
   Vector r(n); if (iter) r = y0; else r = 0.0;
   BlockGSSmoother t(*a.m);
   for (int k = 0; k < it; k++)
   {
      if (type != 2) t.BlockGaussSeidelForw(x0, r);
      if (type != 1) t.BlockGaussSeidelBack(x0, r);
   }
   eqv(y, r, "composition of sweeps");
   eqv(x, x0, "right-hand side unchanged");
   sx::check(s.Height() == n && s.Width() == n, "size of the smoother");
}
static void sweep(const std::vector<int> &sz, unsigned zero, bool forw, bool empty = false)
{
   sx_nonzero_denominators(true);
   BM a(sz, "A", zero, -1, 1, empty);
   const int n = a.off.Last();
   Vector x = vec(n, "x"), y = vec(n, "y"), y0(y), x0(x);
   BlockGSSmoother s(*a.m);
   if (forw) s.BlockGaussSeidelForw(x, y); else s.BlockGaussSeidelBack(x, y);
   a.rows(x0, y, y0, forw, "sweep");
   eqv(x, x0, "right-hand side unchanged");
}
SX_CASE(forward) { sweep({2, 1, 1}, 0, true); }
SX_CASE(backward) { sweep({2, 1, 1}, 0, false); }
SX_CASE(forward_uneven) { sweep({1, 2}, 0, true); }
SX_CASE(backward_uneven) { sweep({1, 2}, 0, false); }
SX_CASE(forward_any_zero_blocks)
{
   // every subset of absent off-diagonal blocks
   unsigned z = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && sx::choose("absent" + I(i, j), 0, 1)) z |= 1u << (3 * i + j);
   sweep({1, 1, 1}, z, true);
}
SX_CASE(backward_any_zero_blocks)
{
   unsigned z = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && sx::choose("absent" + I(i, j), 0, 1)) z |= 1u << (3 * i + j);
   sweep({1, 1, 1}, z, false);
}
SX_CASE(empty_blocks) { const bool f = sx::choose("forward", 0, 1); sweep({1, 2, 1}, 1u << 1 | 1u << 6 | 1u << 5, f, true); }
SX_CASE(composition) { int t = sx::choose("type", 0, 2), it = sx::choose("iterations", 1, 2); bool im = sx::choose("iterative", 0, 1); gs({1, 1}, 0, t, it, im); }
SX_CASE(composition_uneven) { int t = sx::choose("type", 0, 2); bool im = sx::choose("iterative", 0, 1); gs({2, 1}, 0, t, 1, im); }
SX_CASE_THOROUGH(forward_large) { sweep({3, 2, 1}, 0, true); }
SX_CASE_THOROUGH(backward_large) { sweep({2, 1, 3}, 0, false); }
// with two blocks the second sweep of a symmetric iteration is undone by the next one: three are needed to tell
SX_CASE(composition_three) { int t = sx::choose("type", 0, 2), it = sx::choose("iterations", 1, 2); bool im = sx::choose("iterative", 0, 1); gs({1, 1, 1}, 1u << 2 | 1u << 3, t, it, im); }
SX_CASE(defaults)
{
   // default constructed with the documented defaults: symmetric, one iteration, started from zero
   sx_nonzero_denominators(true);
   BM a({1, 2}, "A");
   Vector x = vec(3, "x"), y = vec(3, "y"), z(3), w(3);
   BlockGSSmoother s(*a.m);
   s.Mult(x, y);
   Vector r(3); r = 0.0;
   s.BlockGaussSeidelForw(x, r); Vector m(r);
   s.BlockGaussSeidelBack(x, r);
   eqv(y, r, "symmetric sweep from zero");
   a.rows(x, y, m, false, "backward half");
}
static void setop(bool dflt, const std::vector<int> &sz1, const std::vector<int> &sz2, bool jacobi)
{
   sx_nonzero_denominators(true);
   BM a(sz1, "A"), b(sz2, "B");
   const int n = b.off.Last();
   Vector x = vec(n, "x"), y = vec(n, "y"), y0(n); y0 = 0.0;
   if (jacobi)
   {
      std::unique_ptr<BlockDSmoother> s(dflt ? new BlockDSmoother() : new BlockDSmoother(*a.m));
      s->SetOperator(*b.m); s->Mult(x, y);
      for (int i = 0; i < b.nb; i++) for (int r = b.off[i]; r < b.off[i + 1]; r++)
      { double t = 0; for (int c = b.off[i]; c < b.off[i + 1]; c++) t += b.d(r, c) * y[c]; sx::eq(t, x[r], "new operator, row " + I(r)); }
      sx::check(s->Height() == n && s->Width() == n, "size of the smoother");
      return;
   }
   std::unique_ptr<BlockGSSmoother> s(dflt ? new BlockGSSmoother(1, 1) : new BlockGSSmoother(*a.m, 1, 1));
   s->SetOperator(*b.m); s->Mult(x, y);
   b.rows(x, y, y0, true, "new operator");
   sx::check(s->Height() == n && s->Width() == n, "size of the smoother");
}
SX_CASE(set_operator) { const bool j = sx::choose("jacobi", 0, 1); setop(false, {1, 2}, {1, 2}, j); }
SX_CASE(set_operator_other_layout) { const bool j = sx::choose("jacobi", 0, 1); setop(false, {1, 1}, {2, 1, 1}, j); }
SX_CASE(set_operator_first) { const bool j = sx::choose("jacobi", 0, 1); setop(true, {1}, {2, 1}, j); }
SX_CASE(set_operator_refused)
{
   BM a({1, 1}, "A"); DenseMatrix d = mat(2, 2, "D");
   BlockGSSmoother s(*a.m);
   sx::check(sx::rejects([&] { s.SetOperator(d); }), "an operator without blocks is refused");
}
SX_CASE(jacobi)
{
   sx_nonzero_denominators(true);
   BM a({2, 1, 2}, "A");
   Vector x = vec(5, "x"), y = vec(5, "y");
   BlockDSmoother s(*a.m);
   s.Mult(x, y);
   for (int i = 0; i < 3; i++) for (int r = a.off[i]; r < a.off[i + 1]; r++)
   { double t = 0; for (int c = a.off[i]; c < a.off[i + 1]; c++) t += a.d(r, c) * y[c]; sx::eq(t, x[r], "block Jacobi row " + I(r)); }
}
SX_CASE(jacobi_refused)
{
   BM a({1, 1}, "A"); Vector x = vec(2, "x"), y(2);
   const int t = sx::choose("type", 0, 2), it = sx::choose("iterations", 1, 2); const bool im = sx::choose("iterative", 0, 1);
   BlockDSmoother s(*a.m, t, it); s.iterative_mode = im;
   const bool std_ = t == 0 && it == 1 && !im;
   sx::check(sx::rejects([&] { s.Mult(x, y); }) == !std_, "only the standard preconditioner is provided");
}
