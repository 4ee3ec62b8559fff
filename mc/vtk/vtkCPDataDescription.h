#include "vtkstandin.h"
