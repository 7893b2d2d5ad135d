#ifndef SX_LIBROM_HDF_H
#define SX_LIBROM_HDF_H
#include <hdf5.h>
#include <string>
#include <vector>
#include <cassert>
namespace CAROM {
struct Database { enum class formats { HDF5, CSV, HDF5_MPIO }; };
class HDFDatabase : public Database {
   hid_t f_ = -1;
   void put(const std::string &k, const void *v, int n, hid_t file, hid_t mem) {
      hsize_t d[1] = {(hsize_t) n};
      hid_t sp = H5Screate_simple(1, d, NULL), ds = H5Dcreate2(f_, k.c_str(), file, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      assert(n > 0 && sp >= 0 && ds >= 0);
      herr_t e = H5Dwrite(ds, mem, H5S_ALL, H5S_ALL, H5P_DEFAULT, v);
      assert(e >= 0);
      H5Sclose(sp); H5Dclose(ds);
   }
   int size(const std::string &k) {
      hid_t ds = H5Dopen2(f_, k.c_str(), H5P_DEFAULT);
      assert(ds >= 0);
      hid_t sp = H5Dget_space(ds);
      int n = (int) H5Sget_select_npoints(sp);
      H5Sclose(sp); H5Dclose(ds);
      return n;
   }
   template<class T> void get(const std::string &k, T *v, int n, hid_t mem) {   // as libROM: the whole array must fit
      std::vector<T> all(size(k));
      hid_t ds = H5Dopen2(f_, k.c_str(), H5P_DEFAULT);
      herr_t e = H5Dread(ds, mem, H5S_ALL, H5S_ALL, H5P_DEFAULT, all.data());
      assert(e >= 0);
      H5Dclose(ds);
      assert(n >= (int) all.size());
      for (size_t i = 0; i < all.size(); i++) v[i] = all[i];
   }
public:
   bool create(const std::string &n) { f_ = H5Fcreate(n.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); return f_ >= 0; }
   bool open(const std::string &n, const std::string &t) { f_ = H5Fopen(n.c_str(), t == "r" ? H5F_ACC_RDONLY : H5F_ACC_RDWR, H5P_DEFAULT); return f_ >= 0; }
   bool close() { return H5Fclose(f_) >= 0; }
   void putIntegerArray(const std::string &k, const int *v, int n) { put(k, v, n, H5T_STD_I32LE, H5T_NATIVE_INT); }
   void putDoubleArray(const std::string &k, const double *v, int n) { put(k, v, n, H5T_IEEE_F64LE, H5T_NATIVE_DOUBLE); }
   int getDoubleArraySize(const std::string &k) { return size(k); }
   void getIntegerArray(const std::string &k, int *v, int n) { get(k, v, n, H5T_NATIVE_INT); }
   void getDoubleArray(const std::string &k, double *v, int n) { get(k, v, n, H5T_NATIVE_DOUBLE); }
};
}
#endif
