#define PART 1
#include "../src/c02_a.cpp"
