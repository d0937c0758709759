#define ELEM_T float
#define DO_QR
#include "dense_lapack.cxx"
