#include "../linalg/Matrix.h"
