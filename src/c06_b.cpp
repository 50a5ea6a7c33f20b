#define PART 1
#include "../src/c06_a.cpp"
