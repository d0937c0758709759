#define ELEM_T double
#define DO_SOLVE
#include "dense_lapack.cxx"
