// C10: what is stored in an HDF5 file is read back unchanged
#include "h.hpp"
#include "hdf5_utils.hpp"
#include "hyperreduction_integ.hpp"
#include <memory>
#include <unistd.h>
using namespace hdf5_utils;
static int nfile = 0;
struct File
{
   S name; hid_t id, grp = -1;
   File() { name = "c10_" + I(nfile++) + "_" + I((int)getpid()) + ".h5"; id = H5Fcreate(name.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); }
   // everything written must be in the file: close it and open it again for reading
   void reopen() { sx::check(H5Fclose(id) >= 0, "file closes"); id = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); sx::check(id >= 0, "file opens"); }
   ~File() { H5Fclose(id); remove(name.c_str()); }
};
static void eqi(int a, int b, const S &l) { sx::check(a == b, l); }
static int num(const S &n) { return sx::integer(n, -1000000, 1000000); }

SX_CASE(attributes)
{
   File f;
   int n = num("n"), m = num("m"); double x = sx::real("x"), y = sx::real("y", -1e6, 1e6); bool b = sx::choose("b", 0, 1);
   WriteAttribute(f.id, "n", n); WriteAttribute(f.id, "x", x); WriteAttribute(f.id, "b", b); WriteAttribute(f.id, "y", y); WriteAttribute(f.id, "m", m);
   f.reopen();
   int n2 = 7, m2 = 8; double x2 = 9, y2 = 10; bool b2 = !b;
   ReadAttribute(f.id, "m", m2); ReadAttribute(f.id, "n", n2); ReadAttribute(f.id, "x", x2); ReadAttribute(f.id, "b", b2); ReadAttribute(f.id, "y", y2);
   eqi(n, n2, "integer attribute"); eqi(m, m2, "second integer attribute"); sx::eq(x, x2, "real attribute"); sx::eq(y, y2, "second real attribute"); sx::check(b == b2, "boolean attribute");
   sx::check(sx::rejects([&] { int q; ReadAttribute(f.id, "absent", q); }), "an absent attribute is refused");
}
static const char *words[] = {"", "a", "hello world", "fifteen_chars__", "sixteen_chars___", "a string that is longer than any small buffer 0123456789", "tab\tand/slash:colon"};
SX_CASE(strings)
{
   File f;
   const int a = sx::choose("first", 0, 6), b = sx::choose("second", 0, 6), o = sx::choose("old", 0, 2);
   S v(words[a]), w(words[b]);
   WriteAttribute(f.id, "v", v); WriteAttribute(f.id, "w", w);
   sx::check(v == words[a] && w == words[b], "strings unchanged by writing");
   f.reopen();
   S r(words[2 * o]), q(words[o]);
   ReadAttribute(f.id, "v", r); ReadAttribute(f.id, "w", q);
   sx::check(r == v && r.size() == v.size(), "string attribute"); sx::check(q == w && q.size() == w.size(), "second string attribute");
}
SX_CASE(tags)
{
   File f;
   const int a = sx::choose("comp", 0, 6), b = sx::choose("var", 0, 6), c = sx::choose("comp2", 0, 2), d = sx::choose("var2", 0, 2);
   BasisTag s(words[a], words[b]), t(words[c], words[d]);
   WriteAttribute(f.id, "s", s); WriteAttribute(f.id, "t", t);
   f.reopen();
   BasisTag r("x", "y"), q;
   ReadAttribute(f.id, "t", q); ReadAttribute(f.id, "s", r);
   sx::check(r.comp == s.comp && r.var == s.var, "tag"); sx::check(q.comp == t.comp && q.var == t.var, "second tag");
   sx::check(r == s && q == t, "tags equal what was stored");
   sx::check((s == t) == (s.comp == t.comp && s.var == t.var), "tag equality");
   // strict total order consistent with equality
   const int lt = s < t, gt = t < s, eq = s == t;
   sx::check(lt + gt + eq == 1, "exactly one of less, equal, greater");
   sx::check(eq == (s.print() == t.print() && s.comp == t.comp), "tags are told apart by component and variable");
   sx::check(s.print() == (s.var.empty() ? s.comp : s.comp + "_" + s.var), "printed tag");
   BasisTag z("o", "p"); z = s; sx::check(z.comp == s.comp && z.var == s.var, "assigned tag");
}
template <class T> static T val(const S &n);
template <> int val<int>(const S &n) { return num(n); }
template <> double val<double>(const S &n) { return sx::real(n); }
template <> bool val<bool>(const S &n) { return sx::choose(n, 0, 1); }
static void same(int a, int b, const S &l) { sx::check(a == b, l); }
static void same(double a, double b, const S &l) { sx::eq(a, b, l); }
static void same(bool a, bool b, const S &l) { sx::check(a == b, l); }
template <class T> static void arrays(int maxn)
{
   File f;
   const int n = sx::choose("n", 0, maxn), old = sx::choose("old", 0, 2);
   Array<T> a(n), b(2), r(2 * old), q;
   for (int i = 0; i < n; i++) a[i] = val<T>("a" + I(i));
   for (int i = 0; i < 2; i++) b[i] = val<T>("b" + I(i));
   Array<T> a0(a);
   WriteDataset(f.id, "a", a); WriteDataset(f.id, "b", b);
   sx::check(a.Size() == n, "written array keeps its size");
   f.reopen();
   ReadDataset(f.id, "a", r); ReadDataset(f.id, "b", q);
   sx::check(r.Size() == n, "size of the array"); sx::check(q.Size() == 2, "size of the second array");
   for (int i = 0; i < n; i++) { same(r[i], a0[i], "entry " + I(i)); same(a[i], a0[i], "source entry " + I(i)); }
   for (int i = 0; i < 2; i++) same(q[i], b[i], "entry of second " + I(i));
   hsize_t *dims = NULL; sx::check(GetDatasetSize(f.id, "a", dims) == 1 && (int)dims[0] == n, "dataset size"); delete[] dims;
}
SX_CASE(int_arrays) { arrays<int>(5); }
SX_CASE(real_arrays) { arrays<double>(5); }
SX_CASE(bool_arrays) { arrays<bool>(3); }
template <class T> static void arrays2(int mh, int mw)
{
   File f;
   const int h = sx::choose("h", 1, mh), w = sx::choose("w", 1, mw), old = sx::choose("old", 0, 1);
   Array2D<T> a(h, w), r;
   if (old) r.SetSize(w, h + 1);
   for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) a(i, j) = val<T>("a" + I(i, j));
   WriteDataset(f.id, "a", a);
   f.reopen();
   ReadDataset(f.id, "a", r);
   sx::check(r.NumRows() == h && r.NumCols() == w, "shape of the array");
   if (r.NumRows() == h && r.NumCols() == w) for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) same(r(i, j), a(i, j), "entry " + I(i, j));
   hsize_t *dims = NULL; sx::check(GetDatasetSize(f.id, "a", dims) == 2 && (int)dims[0] == h && (int)dims[1] == w, "dataset size"); delete[] dims;
}
SX_CASE(int_arrays2) { arrays2<int>(3, 3); }
SX_CASE(real_arrays2) { arrays2<double>(3, 3); }
SX_CASE(bool_arrays2) { arrays2<bool>(2, 2); }
SX_CASE(vectors)
{
   File f;
   const int n = sx::choose("n", 1, 4), old = sx::choose("old", 0, 6);
   Vector a = vec(n, "a"), a0(a), r(old), b = vec(3, "b"), q;
   WriteDataset(f.id, "v", a); WriteDataset(f.id, "w", b);
   f.reopen();
   ReadDataset(f.id, "w", q); ReadDataset(f.id, "v", r);
   eqv(r, a0, "vector"); eqv(a, a0, "source"); eqv(q, b, "second vector");
}
// values of a dataset as any other program reads them
static std::vector<double> raw(hid_t f, const S &n, std::vector<int> &dims)
{
   hid_t d = H5Dopen(f, n.c_str(), H5P_DEFAULT), s = H5Dget_space(d); hsize_t e[8]; const int k = H5Sget_simple_extent_dims(s, e, NULL); dims.assign(e, e + k);
   size_t t = 1; for (int x : dims) t *= x; std::vector<double> v(t);
   H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); H5Sclose(s); H5Dclose(d); return v;
}
SX_CASE(dense)
{
   File f;
   const int h = sx::choose("h", 1, 3), w = sx::choose("w", 1, 3), old = sx::choose("old", 0, 1);
   DenseMatrix a = mat(h, w, "a"), a0(a), r;
   if (old) { r.SetSize(w + 1, h); r = 3.0; }
   WriteDataset(f.id, "m", a);
   f.reopen();
   ReadDataset(f.id, "m", r);
   eqm(r, a0, "matrix"); eqm(a, a0, "source");
   std::vector<int> dims; std::vector<double> v = raw(f.id, "m", dims);
   sx::check(dims.size() == 2 && dims[0] == w && dims[1] == h, "layout in the file: columns first");
   if (dims.size() == 2 && (int)v.size() == h * w) for (int j = 0; j < w; j++) for (int i = 0; i < h; i++) sx::eq(v[j * h + i], a0(i, j), "value in the file " + I(i, j));
}
SX_CASE(tensor)
{
   File f;
   const int old = sx::choose("old", 0, 1), k = sx::choose("k", 1, 2), t = sx::choose("turn", 0, 2);
   const int n[3] = {2, 3, k}; const int a1 = n[t % 3], a2 = n[(t + 1) % 3], a3 = n[(t + 2) % 3];
   DenseTensor a(a1, a2, a3), r; fill(a, "a");
   if (old) r.SetSize(1, 2, 2);
   WriteDataset(f.id, "t", a);
   f.reopen();
   ReadDataset(f.id, "t", r);
   sx::check(r.SizeI() == a1 && r.SizeJ() == a2 && r.SizeK() == a3, "shape of the tensor");
   if (r.SizeI() == a1 && r.SizeJ() == a2 && r.SizeK() == a3)
      for (int x = 0; x < a1; x++) for (int y = 0; y < a2; y++) for (int z = 0; z < a3; z++) sx::eq(r(x, y, z), a(x, y, z), "tensor" + I(x, y, z));
   std::vector<int> dims; std::vector<double> v = raw(f.id, "t", dims);
   sx::check(dims.size() == 3 && dims[0] == a3 && dims[1] == a2 && dims[2] == a1, "layout in the file: last index first");
}
// sparse matrix with a chosen pattern; stored zeros are kept
static SparseMatrix *anysparse(int h, int w, const S &n, DenseMatrix &d)
{
   SparseMatrix *s = new SparseMatrix(h, w); d.SetSize(h, w); d = 0.0;
   for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (sx::choose(n + " has " + I(i, j), 0, 1)) { d(i, j) = sx::real(n + I(i, j)); s->Set(i, j, d(i, j)); }
   s->Finalize(0); return s;
}
static void eqsp(const SparseMatrix *r, const SparseMatrix *a, const DenseMatrix &d, const S &l)
{
   sx::check(r != NULL, l + ": present"); if (!r) return;
   sx::check(r->Height() == d.Height() && r->Width() == d.Width(), l + ": size"); sx::check(r->Finalized(), l + ": finalized");
   sx::check(r->NumNonZeroElems() == a->NumNonZeroElems(), l + ": number of entries");
   if (r->Height() == d.Height() && r->Width() == d.Width()) eqs(*r, d, l);
}
SX_CASE(sparse_any_pattern)
{
   File f; DenseMatrix d; std::unique_ptr<SparseMatrix> a(anysparse(2, 3, "a", d));
   WriteSparseMatrix(f.id, "m", a.get());
   f.reopen();
   std::unique_ptr<SparseMatrix> r(ReadSparseMatrix(f.id, "m"));
   eqsp(r.get(), a.get(), d, "matrix"); eqs(*a, d, "source");
   (*r) *= 2.0; eqs(*a, d, "source after the copy was changed");
}
SX_CASE(sparse_tall)
{
   File f; DenseMatrix d, e;
   std::unique_ptr<SparseMatrix> a(sparse(4, 2, "a", {{0, 1}, {3, 0}, {3, 1}}, &d)), b(sparse(1, 5, "b", {{0, 4}}, &e));
   WriteSparseMatrix(f.id, "m", a.get()); WriteSparseMatrix(f.id, "q", b.get());
   f.reopen();
   std::unique_ptr<SparseMatrix> q(ReadSparseMatrix(f.id, "q")), r(ReadSparseMatrix(f.id, "m"));
   eqsp(r.get(), a.get(), d, "matrix"); eqsp(q.get(), b.get(), e, "second matrix");
   a.reset(); eqs(*r, d, "matrix after its source is gone");
   // the layout other programs (and earlier versions) rely on
   hid_t g = H5Gopen2(f.id, "m", H5P_DEFAULT); Array<int> si, sj, sz; Array<double> sd;
   ReadDataset(g, "I", si); ReadDataset(g, "J", sj); ReadDataset(g, "size", sz); ReadDataset(g, "data", sd); H5Gclose(g);
   sx::check(sz.Size() == 2 && sz[0] == 4 && sz[1] == 2 && si.Size() == 5 && si[4] == 3 && sj.Size() == 3 && sd.Size() == 3, "compressed rows in the file");
   if (si.Size() == 5 && si[4] == 3 && sj.Size() == 3 && sd.Size() == 3) for (int i = 0; i < 4; i++) for (int k = si[i]; k < si[i + 1]; k++) sx::eq(sd[k], d(i, sj[k]), "entry in the file " + I(i, sj[k]));
}
SX_CASE(sparse_stored_zero)
{
   File f; SparseMatrix a(2, 2); const double v = sx::real("v"); a.Set(0, 0, 0.0); a.Set(0, 1, v); a.Finalize(0);
   DenseMatrix d(2); d = 0.0; d(0, 1) = v;
   WriteSparseMatrix(f.id, "m", &a);
   f.reopen();
   std::unique_ptr<SparseMatrix> r(ReadSparseMatrix(f.id, "m"));
   eqsp(r.get(), &a, d, "matrix");
}
SX_CASE(sparse_not_finalized)
{
   File f; SparseMatrix a(2, 2); a.Set(0, 1, sx::real("v"));
   sx::check(sx::rejects([&] { WriteSparseMatrix(f.id, "m", &a); }), "an unfinished matrix is refused");
}
SX_CASE(block)
{
   // blocks: absent, present and empty, or with entries
   File f; Array<int> off(4); off[0] = 0; off[1] = 2; off[2] = 3; off[3] = 5;
   BlockMatrix a(off); a.owns_blocks = true; DenseMatrix d(5); d = 0.0;
   for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
   {
      const bool vary = (i + j) % 2 == 1 || i + j == 4;
      const int k = vary ? sx::choose("block" + I(i, j), 0, 2) : 2; if (k == 0) continue;
      DenseMatrix e; SparseMatrix *s = k == 1 ? new SparseMatrix(off[i + 1] - off[i], off[j + 1] - off[j]) : NULL;
      if (k == 1) s->Finalize(0);
      else { s = sparse(off[i + 1] - off[i], off[j + 1] - off[j], "a" + I(i, j), {{off[i + 1] - off[i] - 1, 0}, {0, off[j + 1] - off[j] - 1}}, &e); for (int x = 0; x < e.Height(); x++) for (int y = 0; y < e.Width(); y++) d(off[i] + x, off[j] + y) = e(x, y); }
      a.SetBlock(i, j, s);
   }
   WriteBlockMatrix(f.id, "m", &a);
   f.reopen();
   std::unique_ptr<BlockMatrix> r(ReadBlockMatrix(f.id, "m", off));
   sx::check(r->NumRowBlocks() == 3 && r->NumColBlocks() == 3 && r->Height() == 5 && r->Width() == 5, "layout");
   std::unique_ptr<SparseMatrix> m(r->CreateMonolithic()); eqs(*m, d, "block matrix");
   std::unique_ptr<SparseMatrix> m0(a.CreateMonolithic()); eqs(*m0, d, "source");
   sx::check(r->owns_blocks, "the copy owns its blocks");
}
SX_CASE(block_other_offsets)
{
   File f; Array<int> off(3); off[0] = 0; off[1] = 2; off[2] = 3; BlockMatrix a(off); a.owns_blocks = true;
   a.SetBlock(0, 0, sparse(2, 2, "a", {{0, 0}, {1, 1}})); a.SetBlock(1, 1, sparse(1, 1, "b", {{0, 0}}));
   WriteBlockMatrix(f.id, "m", &a);
   f.reopen();
   Array<int> o(3); o[0] = 0; o[1] = sx::choose("cut", 1, 2); o[2] = sx::choose("end", 3, 4);
   sx::check(sx::rejects([&] { BlockMatrix *r = ReadBlockMatrix(f.id, "m", o); (void)r; }) == !(o[1] == 2 && o[2] == 3), "other block offsets are refused");
}
static void blocks(int nr, int nc, bool old)
{
   File f; MatrixBlocks a(nr, nc); Array2D<DenseMatrix *> d(nr, nc); d = NULL;
   for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++)
   {
      const int h = i + 1, w = 2 - j % 2, k = sx::choose("block" + I(i, j), 0, 2); if (k == 0) continue;
      if (k == 1) { a(i, j) = new SparseMatrix(h, w); a(i, j)->Finalize(0); continue; }
      d(i, j) = new DenseMatrix; a(i, j) = sparse(h, w, "a" + I(i, j), {{h - 1, 0}, {0, w - 1}}, d(i, j));
   }
   WriteDataset(f.id, "m", a);
   f.reopen();
   MatrixBlocks r; if (old) { r.SetSize(2, 1); r(0, 0) = sparse(1, 1, "o", {{0, 0}}); r(1, 0) = sparse(2, 2, "p", {{0, 1}}); }
   ReadDataset(f.id, "m", r);
   sx::check(r.nrows == nr && r.ncols == nc && r.blocks.NumRows() == nr && r.blocks.NumCols() == nc, "layout");
   if (r.nrows == nr && r.ncols == nc) for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++)
   {
      if (d(i, j)) eqsp(r(i, j), a(i, j), *d(i, j), "block" + I(i, j));
      else sx::check(r(i, j) == NULL || r(i, j)->NumNonZeroElems() == 0, "block" + I(i, j) + " stays empty");
   }
   for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) delete d(i, j);
}
SX_CASE(matrix_blocks) { blocks(2, 2, sx::choose("old", 0, 1)); }
SX_CASE(matrix_blocks_wide) { blocks(1, 3, sx::choose("old", 0, 1)); }
SX_CASE(matrix_blocks_tall) { blocks(3, 1, sx::choose("old", 0, 1)); }
static Array<SampleInfo> samples(int n, const S &nm)
{
   Array<SampleInfo> s; for (int k = 0; k < n; k++) { SampleInfo x; x.el = num(nm + "el" + I(k)); x.qp = num(nm + "qp" + I(k)); x.qw = sx::real(nm + "qw" + I(k), 0, 1); s.Append(x); }
   return s;
}
static const IntegratorType kinds[] = {DOMAIN, INTERIORFACE, BDRFACE, INTERFACE};
SX_CASE(sample_lists)
{
   File f; const int k = sx::choose("kind", 0, 3), n = sx::choose("n", 0, 3), old = sx::choose("old", 0, 2);
   Array<SampleInfo> a = samples(n, "a"), b = samples(2, "b"), r = samples(2 * old, "r"), q;
   WriteDataset(f.id, "s", kinds[k], a); WriteDataset(f.id, "t", kinds[(k + 1) % 4], b);
   f.reopen();
   ReadDataset(f.id, "t", kinds[(k + 1) % 4], q); ReadDataset(f.id, "s", kinds[k], r);
   sx::check(r.Size() == n && q.Size() == 2, "number of samples");
   if (r.Size() == n) for (int i = 0; i < n; i++) { eqi(r[i].el, a[i].el, "element " + I(i)); eqi(r[i].qp, a[i].qp, "point " + I(i)); sx::eq(r[i].qw, a[i].qw, "weight " + I(i)); }
   if (q.Size() == 2) for (int i = 0; i < 2; i++) { eqi(q[i].el, b[i].el, "second: element " + I(i)); eqi(q[i].qp, b[i].qp, "second: point " + I(i)); sx::eq(q[i].qw, b[i].qw, "second: weight " + I(i)); }
}
SX_CASE(sample_elements)
{
   // sampled elements, saved and loaded on their own and through the sample lists
   File f; const int k = sx::choose("kind", 0, 3), n = sx::choose("n", 0, 3), mode = sx::choose("mode", 0, 2);
   Array<SampleInfo> a = samples(n, "a"), r;
   if (mode != 1) { EQPElement e(a); sx::check(e.Size() == n, "samples of the element"); e.Save(f.id, "s", kinds[k]); } else WriteDataset(f.id, "s", kinds[k], a);
   f.reopen();
   if (mode == 2) ReadDataset(f.id, "s", kinds[k], r);
   else { EQPElement e; e.Load(f.id, "s", kinds[k]); for (int i = 0; i < e.Size(); i++) { r.Append(e.GetSample(i)->info); sx::check(!e.GetSample(i)->shape1 && !e.GetSample(i)->shape2 && e.GetSample(i)->dshape1.Size() == 0 && e.GetSample(i)->dshape2.Size() == 0, "no precomputed data"); } }
   sx::check(r.Size() == n, "number of samples");
   if (r.Size() == n) for (int i = 0; i < n; i++) { eqi(r[i].el, a[i].el, "element " + I(i)); eqi(r[i].qp, a[i].qp, "point " + I(i)); sx::eq(r[i].qw, a[i].qw, "weight " + I(i)); }
}
SX_CASE(kind_mismatch)
{
   File f; const int k = sx::choose("kind", 0, 3), l = sx::choose("other", 0, 3), how = sx::choose("how", 0, 1);
   Array<SampleInfo> a = samples(2, "a"), r;
   WriteDataset(f.id, "s", kinds[k], a);
   f.reopen();
   const bool rej = how ? sx::rejects([&] { EQPElement e; e.Load(f.id, "s", kinds[l]); }) : sx::rejects([&] { ReadDataset(f.id, "s", kinds[l], r); });
   sx::check(rej == (k != l), "samples of another kind of integral are refused");
}
SX_CASE(refused)
{
   File f; const int k = sx::choose("read as", 0, 4), stored = sx::choose("stored", 0, 3);
   Vector v = vec(2, "v"); DenseMatrix m = mat(2, 2, "m"); DenseTensor t(1, 2, 2); fill(t, "t");
   if (stored == 0) WriteDataset(f.id, "d", v); else if (stored == 1) WriteDataset(f.id, "d", m); else if (stored == 2) WriteDataset(f.id, "d", t); else WriteDataset(f.id, "other", v);
   f.reopen();
   const int rank = stored == 3 ? -1 : stored + 1; bool rej; int want;
   if (k == 0) { Vector q; rej = sx::rejects([&] { ReadDataset(f.id, "d", q); }); want = 1; }
   else if (k == 1) { DenseMatrix q; rej = sx::rejects([&] { ReadDataset(f.id, "d", q); }); want = 2; }
   else if (k == 2) { DenseTensor q; rej = sx::rejects([&] { ReadDataset(f.id, "d", q); }); want = 3; }
   else if (k == 3) { Array<double> q; rej = sx::rejects([&] { ReadDataset(f.id, "d", q); }); want = 1; }
   else { Array2D<double> q; rej = sx::rejects([&] { ReadDataset(f.id, "d", q); }); want = 2; }
   sx::check(rej == (rank != want), "data of another shape, or none, is refused");
}
SX_CASE(paths)
{
   File f; Vector v = vec(2, "v"); MatrixBlocks b(1, 1); b(0, 0) = sparse(1, 1, "b", {{0, 0}});
   const bool sub = sx::choose("group", 0, 1);
   hid_t g = H5Gcreate(f.id, "g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   hid_t &w = sub ? g : f.id;
   WriteDataset(w, "v", v); WriteDataset(w, "blocks", b);
   sx::check(pathExists(f.id, "g") && pathExists(w, "v") && pathExists(w, "blocks"), "what was written exists");
   sx::check(!pathExists(w, "v2") && !pathExists(sub ? f.id : g, "v") && !pathExists(w, "block"), "what was not written does not");
   sx::check(pathExists(f.id, "g/v") == sub, "path into a group");
   H5Gclose(g);
   f.reopen();
   sx::check(pathExists(f.id, sub ? "g/v" : "v") && !pathExists(f.id, sub ? "v" : "g/v"), "paths in the file");
   Vector r; ReadDataset(f.id, sub ? "g/v" : "v", r); eqv(r, v, "vector in its group");
   MatrixBlocks q; ReadDataset(f.id, sub ? "g/blocks" : "blocks", q); sx::check(q.nrows == 1 && q(0, 0), "blocks in their group");
}
