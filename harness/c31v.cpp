#define UNDER_MEMCHECK 1
#include "c31.cpp"
