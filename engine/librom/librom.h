// Stand-in for libROM, which is not installed in this sandbox: the part of its interface scaleupROM
// uses, for one process. Containers behave as documented; what libROM computes with a numerical
// algorithm (SVD, non-negative least squares) or keeps in its own files is supplied by the check
// through CAROM::model.
#ifndef SX_LIBROM_H
#define SX_LIBROM_H
#include "linalg/Matrix.h"
#include "linalg/Vector.h"
#include "linalg/Options.h"
#include "linalg/BasisGenerator.h"
#include "linalg/BasisReader.h"
#include "linalg/NNLS.h"
#include "utils/HDFDatabase.h"
#include "utils/mpi_utils.h"
#include "mumps_model.hpp"
#endif
