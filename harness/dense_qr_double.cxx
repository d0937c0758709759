#define ELEM_T double
#define DO_QR
#include "dense_lapack.cxx"
