#define PART 2
#include "c06_a.cpp"
