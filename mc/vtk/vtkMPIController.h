#include "vtkstandin.h"
#include <mpi.h>
