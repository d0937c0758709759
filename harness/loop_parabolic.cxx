#define LOOP 2
#include "loops.cxx"
