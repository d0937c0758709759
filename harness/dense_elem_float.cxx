#define ELEM_T float
#include "dense_elem.cxx"
