// Third-order reduced tensors: contractions and their derivatives
#include "h.hpp"
#include "linalg_utils.hpp"
static void tens(int a, int b, int c)
{
   DenseTensor T(a, b, c); fill(T, "T");
   Vector x = vec(a, "x"), y = vec(b, "y"), z = vec(c, "z");
   double w = sx::real("w");
   Vector r(c); for (int k = 0; k < c; k++) { double s = 0; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) s += T(i, j, k) * x[i] * y[j]; r[k] = s; }
   Vector o; TensorContract(T, x, y, o); eqv(o, r, "TensorContract");
   Vector o1(c + 1); o1 = 4.0; TensorContract(T, x, y, o1); eqv(o1, r, "TensorContract into a used vector");
   Vector q = vec(c, "q"), qr(q); for (int k = 0; k < c; k++) qr[k] += w * r[k];
   TensorAddScaledContract(T, w, x, y, q); eqv(q, qr, "TensorAddScaledContract accumulates");
   DenseMatrix M(a, b), Mr(a, b); M = 3.0; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { double s = 0; for (int k = 0; k < c; k++) s += T(i, j, k) * z[k]; Mr(i, j) = s; }
   TensorMult(T, z, M); eqm(M, Mr, "TensorMult");
   DenseMatrix J = mat(a, c, "J"), Jr(J); for (int i = 0; i < a; i++) for (int k = 0; k < c; k++) { double s = 0; for (int j = 0; j < b; j++) s += T(i, j, k) * y[j]; Jr(i, k) += s; }
   TensorAddMultOnJ(T, y, J); eqm(J, Jr, "TensorAddMultOnJ");
   DenseMatrix A0 = mat(c, b, "A0"), A0r(A0), A0s(A0), A0sr(A0), A1 = mat(c, a, "A1"), A1r(A1), A1s(A1), A1sr(A1);
   for (int k = 0; k < c; k++) for (int j = 0; j < b; j++) { double s = 0; for (int i = 0; i < a; i++) s += T(i, j, k) * x[i]; A0r(k, j) += s; A0sr(k, j) += w * s; }
   for (int k = 0; k < c; k++) for (int i = 0; i < a; i++) { double s = 0; for (int j = 0; j < b; j++) s += T(i, j, k) * y[j]; A1r(k, i) += s; A1sr(k, i) += w * s; }
   TensorAddMultTranspose(T, x, 0, A0); eqm(A0, A0r, "TensorAddMultTranspose axis 0");
   TensorAddMultTranspose(T, y, 1, A1); eqm(A1, A1r, "TensorAddMultTranspose axis 1");
   TensorAddScaledMultTranspose(T, w, x, 0, A0s); eqm(A0s, A0sr, "TensorAddScaledMultTranspose axis 0");
   TensorAddScaledMultTranspose(T, w, y, 1, A1s); eqm(A1s, A1sr, "TensorAddScaledMultTranspose axis 1");
   eqv(x, vec(a, "x"), "x unchanged"); eqv(y, vec(b, "y"), "y unchanged");
}
SX_CASE(t_222) { tens(2, 2, 2); }
SX_CASE(t_321) { tens(3, 2, 1); }
SX_CASE(t_132) { tens(1, 3, 2); }
SX_CASE(t_213) { tens(2, 1, 3); }
SX_CASE_THOROUGH(t_345) { tens(3, 4, 5); }
// the two transposed contractions together are the Jacobian of the quadratic form: the
// reduced Newton iteration of the nonlinear ROM relies on it
SX_CASE(t_jacobian)
{
   DenseTensor T(3, 3, 2); fill(T, "T"); Vector x = vec(3, "x"); double w = sx::real("w");
   DenseMatrix Jm(2, 3); Jm = 0.0; TensorAddMultTranspose(T, x, 0, Jm); TensorAddMultTranspose(T, x, 1, Jm);
   std::vector<double> xs(x.GetData(), x.GetData() + 3);
   sx::jacobian("d(x T x)", xs, [&](std::vector<double> &v) { Vector a(v.data(), 3), y; TensorContract(T, a, a, y); return std::vector<double>(y.GetData(), y.GetData() + 2); }, [&](int i, int j) { return Jm(i, j); });
   DenseMatrix Ks(2, 3); Ks = 0.0; TensorAddScaledMultTranspose(T, w, x, 0, Ks); TensorAddScaledMultTranspose(T, w, x, 1, Ks);
   sx::jacobian("d(w x T x)", xs, [&](std::vector<double> &v) { Vector a(v.data(), 3), y(2); y = 0.0; TensorAddScaledContract(T, w, a, a, y); return std::vector<double>(y.GetData(), y.GetData() + 2); }, [&](int i, int j) { return Ks(i, j); });
}
