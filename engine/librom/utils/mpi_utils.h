#ifndef SX_LIBROM_MPI_H
#define SX_LIBROM_MPI_H
#include <mpi.h>
#include <vector>
namespace CAROM {
inline int split_dimension(int dim, MPI_Comm = MPI_COMM_WORLD) { return dim; }
inline int get_global_offsets(int local, std::vector<int> &o, MPI_Comm = MPI_COMM_WORLD) { o = {0, local}; return local; }
}
#endif
