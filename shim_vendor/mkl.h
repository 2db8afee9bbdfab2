#pragma once
typedef int MKL_INT;
#include "vendor_blas.h"
VENDOR_BLAS(MKL_INT)
#include "mkl_dfti.h"
