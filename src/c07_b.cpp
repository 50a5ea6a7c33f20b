#define PART 1
#include "../src/c07_a.cpp"
