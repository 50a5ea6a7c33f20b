#define PART 1
#include "../src/c08_a.cpp"
