#define PART 1
#include "../src/c12_a.cpp"
