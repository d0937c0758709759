#define LOOP 3
#include "loops.cxx"
