#ifndef SX_LIBROM_GENERATOR_H
#define SX_LIBROM_GENERATOR_H
#include "Matrix.h"
#include "Options.h"
#include "BasisReader.h"
namespace CAROM {
namespace model { inline std::map<std::string, Vector> &spectra() { static std::map<std::string, Vector> m; return m; } }
class BasisGenerator {   // one time interval, snapshots kept
   Options o_;
   std::string name_;
   std::vector<std::vector<double>> s_;
   std::shared_ptr<const Vector> sv_;
   bool ended_ = false;
public:
   BasisGenerator(Options o, bool, const std::string &name = "", Database::formats = Database::formats::HDF5) : o_(o), name_(name) {}
   bool isNextSample(double) { return true; }
   bool takeSample(double *u, double = 0., double = 0., bool = true) {
      if ((int) s_.size() >= o_.max_num_samples) return false;
      s_.emplace_back(u, u + o_.dim);
      return true;
   }
   int getNumSamples() const { return (int) s_.size(); }
   void endSamples(const std::string & = "basis") { assert(!s_.empty() && !ended_); ended_ = true; }
   std::shared_ptr<const Matrix> getSnapshotMatrix() {
      auto m = std::make_shared<Matrix>(o_.dim, (int) s_.size(), true);
      for (int i = 0; i < o_.dim; i++) for (size_t j = 0; j < s_.size(); j++) m->item(i, j) = s_[j][i];
      return m;
   }
   std::shared_ptr<const Vector> getSingularValues() { return std::make_shared<const Vector>(model::spectra().at(name_)); }
   void writeSnapshot() {
      auto m = getSnapshotMatrix();
      int r = m->numRows(), c = m->numColumns();
      HDFDatabase f;
      bool ok = f.create(name_ + "_snapshot.000000");
      assert(ok);
      f.putIntegerArray("snapshot_matrix_num_rows", &r, 1);
      f.putIntegerArray("snapshot_matrix_num_cols", &c, 1);
      f.putDoubleArray("snapshot_matrix", m->getData(), r * c);
      f.close();
   }
   void loadSamples(const std::string &base, const std::string &kind = "basis", int cut = 1000000000, Database::formats = Database::formats::HDF5) {
      assert(kind == "snapshot");
      HDFDatabase f;
      bool ok = f.open(base + ".000000", "r");
      assert(ok);
      int r, c;
      f.getIntegerArray("snapshot_matrix_num_rows", &r, 1);
      f.getIntegerArray("snapshot_matrix_num_cols", &c, 1);
      assert(r == o_.dim);
      Matrix m(r, c, true);
      f.getDoubleArray("snapshot_matrix", m.getData(), r * c);
      f.close();
      for (int j = 0; j < c && j < cut; j++) {
         std::vector<double> v(r);
         for (int i = 0; i < r; i++) v[i] = m.item(i, j);
         takeSample(v.data());
      }
   }
};
}
#endif
