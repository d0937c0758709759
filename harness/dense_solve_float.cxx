#define ELEM_T float
#define DO_SOLVE
#include "dense_lapack.cxx"
