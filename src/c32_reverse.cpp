#define Nz Nz_reverse // a copy of the library of its own
#include <NazaraUtils/TypeTraits.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Prerequisites.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/DebugBreak.hpp>
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/ConstantEvaluated.hpp>
#include <NazaraUtils/Concepts.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/Algorithm.hpp>
#define C32_TypeTraits
#define C32_TypeTag
#define C32_TypeName
#define C32_TypeList
#define C32_StringUtils
#define C32_StringHash
#define C32_StackVector
#define C32_StackArray
#define C32_SparsePtr
#define C32_Signal
#define C32_Result
#define C32_PrivateImpl
#define C32_Prerequisites
#define C32_PathUtils
#define C32_OffsetOf
#define C32_MovableValue
#define C32_MovablePtr
#define C32_MemoryPool
#define C32_MemoryHelper
#define C32_MathUtils
#define C32_Hash
#define C32_FunctionTraits
#define C32_FunctionRef
#define C32_Flags
#define C32_FixedVector
#define C32_EnumArray
#define C32_Endianness
#define C32_DebugBreak
#define C32_Constants
#define C32_ConstantEvaluated
#define C32_Concepts
#define C32_CallOnExit
#define C32_Bitset
#define C32_Assert
#define C32_Algorithm
#define C32_ORDER "reverse order"
#include "../src/c32_probe.hpp"
