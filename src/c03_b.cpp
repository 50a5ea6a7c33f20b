#define PART 1
#include "../src/c03_a.cpp"
