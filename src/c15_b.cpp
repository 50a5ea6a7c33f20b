#define PART 1
#include "../src/c15_a.cpp"
