// Orthonormalisation of reduced bases
#include "h.hpp"
#include "linalg_utils.hpp"
static DenseMatrix gram(const DenseMatrix &A, const DenseMatrix &Bm) { DenseMatrix g(A.Width(), Bm.Width()); for (int i = 0; i < A.Width(); i++) for (int j = 0; j < Bm.Width(); j++) { double s = 0; for (int k = 0; k < A.Height(); k++) s += A(k, i) * Bm(k, j); g(i, j) = s; } return g; }
static void ident(const DenseMatrix &g, const S &l) { for (int i = 0; i < g.Height(); i++) for (int j = 0; j < g.Width(); j++) sx::eq(g(i, j), i == j ? 1.0 : 0.0, l + I(i, j)); }
// span preserved: original column c = sum_k (q_k . a_c) q_k  over k <= c (triangular)
static void span(const DenseMatrix &Q, const DenseMatrix &A, const S &l)
{
   DenseMatrix g = gram(Q, A);
   for (int c = 0; c < A.Width(); c++) for (int r = 0; r < A.Height(); r++)
   { double s = 0; for (int k = 0; k <= c; k++) s += g(k, c) * Q(r, k); sx::eq(s, A(r, c), l + I(r, c)); }
}
SX_CASE(mgs_2x1) { sx_nonzero_denominators(true);  DenseMatrix A = mat(2, 1, "A"); A(0, 0) = sx::real("p", 0.25, 1); DenseMatrix Q(A); modifiedGramSchmidt(Q); ident(gram(Q, Q), "orthonormal"); span(Q, A, "span"); }
SX_CASE(mgs_2x2) { sx_nonzero_denominators(true);  DenseMatrix A = mat(2, 2, "A"); A(0, 0) = sx::real("p", 0.5, 1); A(1, 0) = sx::real("q", -0.25, 0.25); A(1, 1) = sx::real("r", 0.5, 1); A(0, 1) = sx::real("s", -0.25, 0.25); DenseMatrix Q(A); modifiedGramSchmidt(Q); ident(gram(Q, Q), "orthonormal"); span(Q, A, "span"); }
SX_CASE(mgs_3x2) { sx_nonzero_denominators(true);  DenseMatrix A = mat(3, 2, "A"); A(0, 0) = sx::real("p", 0.5, 1); A(1, 0) = sx::real("q", -0.25, 0.25); A(1, 1) = sx::real("r", 0.5, 1); A(0, 1) = sx::real("s", -0.25, 0.25); DenseMatrix Q(A); modifiedGramSchmidt(Q); ident(gram(Q, Q), "orthonormal"); span(Q, A, "span"); }
// against a given (not normalised) set
SX_CASE(against_one)
{ sx_nonzero_denominators(true); 
   DenseMatrix B1 = mat(3, 1, "B"); B1(0, 0) = sx::real("b", 0.5, 2);
   DenseMatrix A = mat(3, 1, "A"); A(1, 0) = sx::real("a", 4, 5);
   B1(1, 0) = sx::real("b1", -0.25, 0.25);
   DenseMatrix Q(A), B0(B1); Orthonormalize(B1, Q);
   ident(gram(Q, Q), "normalised"); DenseMatrix g = gram(B1, Q); sx::eq(g(0, 0), 0.0, "orthogonal to the given set"); eqm(B1, B0, "given set unchanged");
   // the direction removed is along B only: A - (q.A) q is parallel to B
   double qa = gram(Q, A)(0, 0), ba = gram(B1, A)(0, 0), bb = gram(B1, B1)(0, 0);
   for (int r = 0; r < 3; r++) sx::eq(qa * Q(r, 0) * bb + ba * B1(r, 0), A(r, 0) * bb, "span" + I(r));
}
// two given orthogonal (not normalised) vectors
SX_CASE(against_two)
{ sx_nonzero_denominators(true); 
   double u = sx::real("u", 0.5, 2), v = sx::real("v", 0.5, 2), t = sx::real("t", -1, 1);
   DenseMatrix B1(4, 2); B1 = 0.0; B1(0, 0) = u; B1(1, 0) = t * u; B1(0, 1) = -t * v; B1(1, 1) = v;
   DenseMatrix A = mat(4, 1, "A"); A(2, 0) = sx::real("a", 0.5, 1);
   DenseMatrix Q(A); Orthonormalize(B1, Q);
   ident(gram(Q, Q), "normalised"); DenseMatrix g = gram(B1, Q); sx::eq(g(0, 0), 0.0, "orthogonal to given column 0"); sx::eq(g(1, 0), 0.0, "orthogonal to given column 1");
}
SX_CASE(against_one_two_columns)
{ sx_nonzero_denominators(true); 
   DenseMatrix B1(3, 1); B1 = 0.0; B1(0, 0) = sx::real("b", 0.5, 2);
   DenseMatrix A = mat(3, 2, "A"); A(1, 0) = sx::real("p", 0.5, 1); A(2, 0) = sx::real("q", -0.25, 0.25); A(2, 1) = sx::real("r", 0.5, 1); A(1, 1) = sx::real("s", -0.25, 0.25);
   DenseMatrix Q(A); Orthonormalize(B1, Q);
   ident(gram(Q, Q), "orthonormal"); DenseMatrix g = gram(B1, Q); sx::eq(g(0, 0), 0.0, "orthogonal0"); sx::eq(g(0, 1), 0.0, "orthogonal1");
   double z = gram(Q, A)(0, 1); for (int r = 1; r < 3; r++) sx::eq(gram(Q, A)(0, 0) * Q(r, 0), A(r, 0), "span first column" + I(r));
}
