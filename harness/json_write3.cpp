#define DEEP 1
#include "json_write.cpp"
