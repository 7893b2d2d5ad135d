#ifndef SX_LIBROM_READER_H
#define SX_LIBROM_READER_H
#include "Matrix.h"
#include "../utils/HDFDatabase.h"
#include <map>
namespace CAROM {
namespace model { inline std::map<std::string, Matrix> &bases() { static std::map<std::string, Matrix> m; return m; } }
class BasisReader {
   std::string name_;
   int dim_;
   Database::formats fmt_;
public:
   BasisReader(const std::string &n, Database::formats f = Database::formats::HDF5, int dim = -1) : name_(n), dim_(dim), fmt_(f) { assert(model::bases().count(n)); }
   int getDim(const std::string = "basis") { return model::bases()[name_].numRows(); }
   std::unique_ptr<Matrix> getSpatialBasis(int n) {
      const Matrix &m = model::bases()[name_];
      assert(fmt_ != Database::formats::HDF5_MPIO || dim_ == m.numRows());
      assert(0 < n && n <= m.numColumns());
      auto r = m.getFirstNColumns(n);
      std::unique_ptr<Matrix> o(new Matrix(*r));
      if (!o->distributed()) o->distribute(o->numRows());
      return o;
   }
};
}
#endif
