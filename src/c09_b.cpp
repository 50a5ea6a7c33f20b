#define PART 1
#include "../src/c09_a.cpp"
