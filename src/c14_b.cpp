#define PART 1
#include "../src/c14_a.cpp"
