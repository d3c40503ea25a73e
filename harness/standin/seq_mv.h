#include "hypre_all.h"
