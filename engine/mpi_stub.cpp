// one-process stand-in: the code under test asks for its rank without MPI having been initialised
#include <string.h>
extern "C" {
int MPI_Comm_rank(void *, int *r) { *r = 0; return 0; }
int MPI_Comm_size(void *, int *s) { *s = 1; return 0; }
int MPI_Reduce(const void *, void *, int, void *, void *, int, void *) { return 0; }
int MPI_Bcast(void *, int, void *, int, void *) { return 0; }
// only used for doubles
int MPI_Allgatherv(const void *s, int n, void *, void *r, const int *, const int *d, void *, void *) { memcpy((char *) r + 8 * d[0], s, 8 * (size_t) n); return 0; }
int MPI_Barrier(void *) { return 0; }
}
