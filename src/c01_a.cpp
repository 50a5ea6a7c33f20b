#include "bitset_model.hpp"
using namespace bm;
VX_SUITE_FN("memory-u32", memoryCase<Nz::Bitset<Nz::UInt32>>, 1500, 30000);
VX_SUITE_FN("memory-u8-hybrid", memoryCase<Nz::HybridBitset<Nz::UInt8 VX_COMMA 16>>, 1500, 30000);
VX_SUITE_FN("core-u8-vector", coreCase<Nz::Bitset<Nz::UInt8>>, 3000, 60000);
VX_SUITE_FN("core-u64-vector", coreCase<Nz::Bitset<Nz::UInt64>>, 3000, 60000);
VX_SUITE_FN("core-u16-fixed", coreCase<Nz::FixedBitset<Nz::UInt16 VX_COMMA 160>>, 2000, 40000);
VX_SUITE_FN("core-u32-hybrid", coreCase<Nz::HybridBitset<Nz::UInt32 VX_COMMA 16>>, 2000, 40000);
VX_SUITE_FN("core-large-u8", largeCoreCase<Nz::Bitset<Nz::UInt8>>, 30, 300);
VX_SUITE_FN("core-large-u16-hybrid", largeCoreCase<Nz::HybridBitset<Nz::UInt16 VX_COMMA 16>>, 30, 300);
