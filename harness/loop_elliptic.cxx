#define LOOP 1
#include "loops.cxx"
