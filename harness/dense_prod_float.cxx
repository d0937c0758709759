#define ELEM_T float
#include "dense_prod.cxx"
