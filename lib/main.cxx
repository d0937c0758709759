#define PBT_MAIN
#include "pbt.hxx"
