#define LOOP 4
#include "loops.cxx"
