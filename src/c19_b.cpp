#define PART 1
#include "../src/c19_a.cpp"
