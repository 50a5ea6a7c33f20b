// platforms without alloca: the containers own heap storage (names changed, as both variants live in one program)
#define Nz NzHeap
#define sq sqHeap
#define VX_HEAPBACKED
#include <NazaraUtils/MemoryHelper.hpp>
#undef NAZARA_ALLOCA_SUPPORT
#define PART 3
#include "../src/c06_a.cpp"
