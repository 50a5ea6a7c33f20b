#define PART 1
#include "../src/c28_a.cpp"
