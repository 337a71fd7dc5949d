#define DEEP 1
#include "json_nest.cpp"
