#ifndef SX_LIBROM_OPTIONS_H
#define SX_LIBROM_OPTIONS_H
namespace CAROM {
class Options {
public:
   int dim, max_num_samples;
   bool update_right_SV, write_snapshots, static_svd_preserve_snapshot = false;
   int max_basis_dimension = -1;
   double singular_value_tol = 0.;
   Options(int d, int m, int, bool u = false, bool w = false) : dim(d), max_num_samples(m), update_right_SV(u), write_snapshots(w) {}
   Options(int d, int m, bool u = false, bool w = false) : dim(d), max_num_samples(m), update_right_SV(u), write_snapshots(w) {}
};
}
#endif
