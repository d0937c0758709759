#define ELEM_T float
#include "mapping.cxx"
