#define PART 1
#include "../src/c24_a.cpp"
