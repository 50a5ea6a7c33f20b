"""What each check decides: the source of properties.jsonl, MANIFEST.json (tools/gen.py) and of run.py's driver lists."""
import glob, os

PROPS = {}
H = "include/NazaraUtils/"


def P(id, title, statement, qtext, why, files, mech, sources, over=("inputs", "histories"), observe=(), state=(), technique=None, **kw):
    PROPS[id] = dict(title=title, statement=statement, qtext=qtext, why=why, files=[H + f for f in files], mech=mech,
                     sources=sources, over=list(over), observe=list(observe), state=list(state),
                     technique=technique or "model-based runtime monitoring of random histories under ASan/UBSan", **kw)


P("C01", "A bitset behaves as a finite sequence of booleans under every history",
  "After any sequence of resizes, single-bit, block and whole-set updates (set, reset, flip, reverse, shifts, clear, updates past the end, writes through bit proxies) and copies, moves and swaps, every observation of a bitset (size, bits, blocks, count, all/any/none tests, first/next searches, iteration over set bits, tests past the end) equals that of a plain sequence of booleans given the same updates. Bits outside the size never leak into any observation or into a later growth, which fills with the requested value, a logical shift drops the bits pushed out and fills with zeros, and a growth that fails for lack of memory changes nothing. This holds for every block type (8 to 64 bits) and for heap, fixed-capacity and hybrid block storage.",
  "every finite history of operations in their documented domain (bit indices below the size), every size and alignment with respect to blocks, four block types, three kinds of storage",
  "the tests run fixed scenarios on a few sizes; errors live in the combinations of partial last blocks, word shifts and operation order",
  ["Bitset.hpp", "Bitset.inl"], [("unused bits of the last block kept at zero", H + "Bitset.inl ResetExtraBits"), ("block-wise shifts, searches and counts", H + "Bitset.inl ShiftLeft/ShiftRight/FindNext/Count")],
  ["c01_a.cpp", "c01_b.cpp"], observe=["public observers of the bitset after every operation"], state=[("block vector", "bits, least significant first", H + "Bitset.hpp m_blocks"), ("bit count", "number of valid bits", H + "Bitset.hpp m_bitCount")])

P("C02", "Bitset conversions and bulk appends keep every bit and nothing else",
  "Building or assigning a bitset from text, from an unsigned integer or from a byte sequence, appending integers and bit ranges of byte sequences at any bit offset, and converting back to text or to an integer that can hold it, all preserve exactly the given bits in order. A chained read continues at the returned position, and reading n bits touches only the bytes that hold them, also when memory runs out half-way (the bitset then keeps its bits, at most followed by some of the new ones). The text form (also when streamed) lists the bits most significant first and builds back an equal bitset.",
  "every value, length and start offset, every current size of the bitset, chains of reads, the four block types and integer types",
  "the tests append a handful of constants at a few alignments; an off-by-one in one alignment or an over-read of the source is only visible on others",
  ["Bitset.hpp", "Bitset.inl"], [("AppendBits, Write, FromPointer, To, ToString, constructors", H + "Bitset.inl")],
  ["c02_a.cpp", "c02_b.cpp"], over=("inputs", "histories"), observe=["appended bits, returned position, source buffers of exact size watched by ASan"])

P("C03", "Bitset relations and bitwise operators agree with the bits as numbers",
  "Equality, ordering and intersection of two bitsets of any sizes agree with comparing them as binary numbers (absent bits are zero), so that exactly one of <, ==, > holds and the other comparisons are consistent with it. AND, OR, XOR (as operators, compound assignments or into a destination that may be one of the operands) give, on the larger of the two sizes, the bit-by-bit result with absent bits read as zero; complement flips exactly the bits below the size; the operands do not change. Iterating over set bits with prefix or postfix increments yields each of them once, in increasing order.",
  "every pair (and triple) of bitsets reached by any history, of equal or different sizes, aliased or not",
  "the tests compare a few literal pairs; the errors are in size differences, high blocks and leftover bits after other operations",
  ["Bitset.hpp", "Bitset.inl"], [("Compare/operator<, PerformsAND/OR/XOR/NOT, Intersects", H + "Bitset.inl"), ("BitIterator", H + "Bitset.inl")],
  ["c03_a.cpp", "c03_b.cpp"], observe=["results of each comparison/operator on both operand orders"])

P("C04", "Fixed-capacity and hybrid vectors behave like the standard vector",
  "Under any sequence of appends, insertions and erasures anywhere, resizes, reservations, clears, element writes, copies, moves, swaps and range or list constructions, a fixed-capacity or hybrid vector holds the same elements in the same order as a standard vector given the same operations, and size, capacity, element access, forward and reverse iteration, returned references and positions agree with that. This also holds when an argument refers to an element of the vector itself, when a hybrid vector outgrows its inline storage and when containers using different storage are assigned, moved or swapped. Arguments passed by constant reference are left unchanged, the element storage is correctly aligned, and outside of assignments, moves and swaps capacity never shrinks nor do elements change place while it suffices.",
  "every finite history staying within the capacity (fixed) or any size (hybrid), for trivial, owning, move-only, over-aligned and non-default-constructible elements",
  "the tests run short scripts on a few element types; the defects are at the inline/heap transition, in the middle of ranges, and with self-referencing arguments",
  ["FixedVector.hpp", "FixedVector.inl", "Constants.hpp", "MemoryHelper.hpp"], [("inline storage + fallback container", H + "FixedVector.inl"), ("element shifting in insert/erase", H + "FixedVector.inl")],
  ["c04_a.cpp", "c04_b.cpp", "c04_c.cpp", "c04_d.cpp", "c04_e.cpp"], observe=["whole content and addresses after every operation"])

P("C05", "Fixed and hybrid vectors never lose, duplicate or leak an element",
  "Every element a fixed-capacity or hybrid vector constructs is destroyed exactly once, never read or written while not alive and never relocated bitwise, under any history of operations, moves and assignments. When an element's constructor or assignment throws or memory runs out, nothing leaks, the vector stays usable and holds only live elements, and a failed append (or a failed reservation) leaves its content unchanged unless relocating elements itself throws.",
  "every history with an exception injected at any element construction, copy, move or assignment, for copyable, move-only, copy-only and throwing-move elements",
  "the tests never make an element throw and only count survivors at the end of a few scripts",
  ["FixedVector.hpp", "FixedVector.inl"], [("construct then count, destroy then discount", H + "FixedVector.inl")],
  ["c05_a.cpp", "c05_b.cpp", "c05_c.cpp"], over=("histories", "fault_sequences"), observe=["a registry of live elements fed by every special member function"],
  technique="object-lifetime monitor with exception injection under ASan/UBSan")

P("C06", "Stack-backed arrays and vectors obey the same element and lifetime rules",
  "A vector over caller-provided storage holds at any time exactly the elements that a standard vector given the same operations would hold, within the provided capacity; an array over such storage holds its fixed number of elements, all constructed on creation unless construction was explicitly left to the caller. Each element is constructed and destroyed exactly once, including when a constructor throws part-way and when the container is moved, which leaves the source empty and the elements where they are. The stack-allocating macros hand out correctly sized, disjoint storage.",
  "every history within the capacity, every size including zero, exceptions at any element operation, moves between containers over different storage",
  "the tests use one or two element types, no exceptions and few moves",
  ["StackVector.hpp", "StackVector.inl", "StackArray.hpp", "StackArray.inl", "MemoryHelper.hpp"], [("placement construction over borrowed memory", H + "StackVector.inl"), ("StackArray construction/destruction", H + "StackArray.inl")],
  ["c06_a.cpp", "c06_b.cpp", "c06_c.cpp", "c06_d.cpp"], over=("histories", "inputs", "fault_sequences"), observe=["content, live-element registry, guard words around stack frames"],
  technique="model-based monitoring and object-lifetime monitor with exception injection under ASan/UBSan")

P("C07", "A memory pool keeps exact accounts and stable identities of its entries",
  "Under any history of allocations, frees, resets, clears and moves, a memory pool reports exactly the entries that are allocated (counts, iteration visiting each once, index from pointer and pointer from index), never hands out an index or storage in use, and aligns every entry as requested. Live entries never move nor change, including when the pool grows or is moved with its entries (the source is left empty and usable). A block is only added when every entry is taken; a reset returns the existing blocks to full capacity and a clear releases them.",
  "every finite history, every block size, entry types of any size and alignment, requested alignments above the natural one",
  "the tests use one type, two block sizes and natural alignment; reuse orders, blocks of 1, 64 or 65 entries and over-aligned entries are not sampled",
  ["MemoryPool.hpp", "MemoryPool.inl"], [("free/occupied bitsets per block", H + "MemoryPool.inl Allocate/Free/Reset"), ("index <-> pointer arithmetic", H + "MemoryPool.inl RetrieveEntryIndex")],
  ["c07_a.cpp", "c07_b.cpp"], over=("histories", "inputs"), observe=["every public observer after every operation, against a map of live entries"])

P("C08", "Pool objects are constructed and destroyed exactly once, whatever fails",
  "Each object of a memory pool is constructed once by its allocation (unless construction is left to the caller) and destroyed once by its free, by a reset, a clear, an assignment over the pool or the pool's destruction (unless the caller already did), and all memory is returned. If a constructor throws or memory runs out, the exception propagates, nothing leaks and every other entry and count is unchanged. Objects may allocate from and free to their own pool within their constructor, and within their destructor when they are freed one by one.",
  "every history with a failure injected at any constructor or memory allocation, object graphs living in one pool",
  "the tests never make a constructor or an allocation fail and never reenter the pool",
  ["MemoryPool.hpp", "MemoryPool.inl"], [("entry taken before construction, given back after destruction", H + "MemoryPool.inl Allocate/Free"), ("block registration", H + "MemoryPool.inl AllocateBlock")],
  ["c08_a.cpp", "c08_b.cpp"], over=("histories", "fault_sequences"), observe=["live-object registry, heap balance, counts after every operation"],
  technique="object-lifetime monitor with constructor and allocation fault injection under ASan/UBSan")

P("C09", "Every connected slot is called exactly once per emission",
  "Each emission of a signal calls every slot that was connected when it started exactly once, with the emitted arguments, unless the slot gets disconnected before its turn; a disconnected slot is never called afterwards and a slot connected meanwhile is called at most once. This holds whatever callbacks do while they run: disconnect themselves or others, connect new slots, emit again (recursively), clear the signal, drop or reassign guards, or throw (which ends that emission and leaves the signal usable). By-value arguments are intact for every slot, reference arguments designate the caller's object, a running callback stays alive until it returns, and a callback is released once its slot is disconnected.",
  "every schedule of re-entrant operations inside callbacks, any number of slots and signals, every form of connection (function, closure, const and non-const methods)",
  "the tests exercise one disconnection or connection inside a callback at a time; the slot-list surgery goes wrong only for particular interleavings of nested emissions and disconnections",
  ["Signal.hpp", "Signal.inl"], [("emission cursor and swap-and-pop disconnection", H + "Signal.inl operator()/Disconnect/Clear")],
  ["c09_a.cpp", "c09_b.cpp"], over=("schedules", "histories", "inputs"), observe=["each callback run, matched online against the set of slots due in each emission frame"],
  technique="online trace checker of emissions under randomised re-entrant callbacks, ASan/UBSan")

P("C10", "Connections and guards always know and control exactly their own slot",
  "Through any history of copying, moving, assigning and destroying connections, guards and signals, a connection reports being connected exactly while its slot is attached to a living signal, and disconnecting through any copy removes that slot only. A guard removes its slot when it is destroyed, disconnected, reconnected or assigned another connection, and moving it hands that duty over. Copying a signal copies or drops no slot; moving one transfers its slots with their connections, drops those of the target and leaves the source empty; clearing or destroying one disconnects all of its slots, also when callbacks own guards, and a connection that fails for lack of memory adds nothing.",
  "every finite history over several signals, connections and guards, including callbacks that own guards of other slots",
  "the tests follow one connection at a time; stale slot indices and double disconnections need several objects and moves",
  ["Signal.hpp", "Signal.inl"], [("slot ownership (shared/weak) and back pointer to the signal", H + "Signal.inl Connection/ConnectionGuard/operator=")],
  ["c10_a.cpp"], over=("histories",), observe=["connection state of every handle and the set of slots called by each signal after every operation"],
  technique="model-based runtime monitoring of handle histories under ASan/UBSan")

P("C11", "A strided pointer behaves as a random-access pointer over its stride",
  "For any stride (negative included) and any signed or unsigned integer count, indexing, adding, subtracting, incrementing and decrementing a strided pointer designate the address exactly count times stride bytes away, the difference of two such pointers is the number of strides between them, and comparisons follow the addresses. Conversions to pointers to a base class or to const designate the matching subobject and keep the stride, and a null pointer stays null. Standard algorithms over one field of an array of structures therefore read and write that field only.",
  "every stride, position and count of any integer type whose target is representable, every walk over an array; differences need a non-zero stride, algorithms that order positions a positive one",
  "no test covers this class; narrow or unsigned counts and negative strides wrap silently",
  ["SparsePtr.hpp", "SparsePtr.inl"], [("byte pointer + signed stride arithmetic", H + "SparsePtr.inl operator[]/+/-")],
  ["c11_a.cpp"], over=("inputs", "histories"), observe=["addresses and elements designated after each step, buffers watched by ASan"],
  technique="differential monitoring against address arithmetic in the driver, ASan/UBSan")

P("C12", "A result holds either a value or an error, and never mixes them up",
  "After any construction, copy, move, assignment or conversion, a result reports success or error consistently, gives back the stored value or error (by reference, without consuming it unless asked), and asking for the absent one or expecting a success of an error always throws. A value which is itself a result is held as it is. Mapping calls the function exactly once on a success and never on an error, which is carried over; a default is used only for an error; the propagation macros evaluate each expression once and return at the first error. Exceptions thrown by the mapped function or by copying payloads reach the caller and leak nothing.",
  "every history over results of copyable, move-only, throwing and void values and of distinct or identical error types, chains of propagation of any length",
  "the tests check a few literals; state confusions appear with void values, moved or converted results and payloads that throw",
  ["Result.hpp", "Result.inl"], [("variant / optional storage", H + "Result.inl"), ("NAZARA_TRY macros", H + "Result.hpp")],
  ["c12_a.cpp", "c12_b.cpp"], over=("histories", "programs", "fault_sequences"), observe=["all accessors after each operation, calls of mapped functions, live payload registry"], scale=0.4)

P("C13", "A flag set behaves as the set of its enumeration values",
  "For every enumeration usable as flags (up to 64 values, explicit or automatic bit values), building, combining, complementing, setting, clearing and testing flag sets gives exactly the corresponding set operation on the declared values and never a value outside of them. Iteration and counting enumerate each set value once in increasing order, conversion to an integer gives the documented bit field, and equal sets compare and hash equal. Operators between values and sets, in either order, agree with the operators between sets.",
  "every combination of flag sets for enumerations of 1 to 64 values over every storage width",
  "the tests use two small enumerations; widths of 8, 16, 32, 33 or 64 values and high flags are never sampled",
  ["Flags.hpp", "Flags.inl"], [("bit field and value mask selection", H + "Flags.hpp BitField/ValueMask"), ("set operations and iteration", H + "Flags.inl")],
  ["c13_a.cpp"], over=("inputs", "histories"), observe=["bit field, iteration and tests after each operation against a 64-bit mask"],
  technique="model-based runtime monitoring over generated flag sets, ASan/UBSan")

P("C14", "Bit primitives are exact for every value of every integer type",
  "Counting bits, locating the first and the last set bit (one-based, zero when there is none), reversing bits, testing, setting, clearing and toggling a bit, and arithmetic right shift give, for every value of every integer type (signed, unsigned and character types) and every bit index below its width, the result obtained by looking at its bits one by one, without undefined behaviour. Reversing twice, or toggling twice, gives back the value, and the shift rounds towards minus infinity.",
  "all values of 8 and 16-bit types with every bit index (exhaustive), pattern-biased random values of wider types",
  "the tests check a few constants of a few types; sign extension and width selection fail on other types or on negative values only",
  ["MathUtils.hpp", "MathUtils.inl"], [("builtin selection by type size and fallbacks", H + "MathUtils.inl CountBits/FindFirstBit/FindLastBit"), ("table-driven reversal", H + "MathUtils.inl ReverseBits")],
  ["c14_a.cpp", "c14_b.cpp"], over=("inputs",), observe=["results compared with a bit-by-bit definition"],
  technique="differential monitoring against a bit-by-bit definition, exhaustive on narrow types, UBSan")

P("C15", "Integer math helpers return the mathematically exact result",
  "For every integer type, aligning an offset, rounding to a power of two, base-two logarithm, integer power, remainder, multiply-add, clamping, stepping towards an objective and comparing within a difference return the exact mathematical result whenever that result and the operands are in the documented domain, up to the limits of the type and for narrow and 64-bit types alike. Stepping never overshoots nor wraps, and the fast power-of-two variants agree with the general ones. Integer interpolation gives exactly its two ends and stays within one unit of the real interpolation in both directions.",
  "all operands of 8-bit types (pairs exhaustively), limit-biased random operands of wider types",
  "the tests check a few small int values; overflow at the limits, promotion of narrow types, 64-bit halves and unsigned differences are not sampled",
  ["MathUtils.hpp", "MathUtils.inl"], [("promotion, wrapping and 32/64-bit split of each helper", H + "MathUtils.inl Align/Approach/IntegralLog2/NumberEquals/Lerp/RoundToPow2")],
  ["c15_a.cpp", "c15_b.cpp"], over=("inputs",), observe=["results compared with 128-bit arithmetic"],
  technique="differential monitoring against 128-bit arithmetic, exhaustive on 8-bit types, UBSan")

P("C16", "Floating-point helpers and constants are correct to rounding",
  "The mathematical constants are the closest values of their type under every way to ask for them, and limits, infinity and NaN are those of the type. Classification, clamping, stepping towards an objective, remainder, multiply-add, comparison within a difference, interpolation and angle conversion of any finite operands (zeroes, denormals and extremes included) return the exact result up to rounding; comparison is symmetric, stepping never overshoots and repeated steps reach the objective, interpolation returns its start at zero and its end at one, and angle conversions are inverse of each other.",
  "random and special values of float, double and long double",
  "the tests check a few rounded values of float and double only",
  ["MathUtils.hpp", "MathUtils.inl", "Constants.hpp", "Constants.inl"], [("constants", H + "Constants.hpp MathConstants"), ("per-type selection", H + "MathUtils.inl NumberEquals/Mod/Lerp/MultiplyAdd")],
  ["c16_a.cpp", "c16_b.cpp"], over=("inputs",), observe=["results compared with long double or exact reference computations"],
  technique="differential monitoring against reference floating-point computations, UBSan")

P("C17", "Byte-order conversions place every byte exactly and round-trip",
  "Swapping the bytes of any integer, character, boolean or floating-point value reverses its object bytes, and swapping a buffer of any length and address reverses exactly that range. Conversion to big or little endian puts the most or least significant byte first in memory whatever the platform, and converting back gives the original value.",
  "all values of 8 and 16-bit types, pattern-biased random values of wider types (NaN patterns only through buffers), buffers of any length and alignment",
  "the tests swap one literal per width",
  ["Endianness.hpp", "Endianness.inl", "MathUtils.inl"], [("per-width swap selection", H + "MathUtils.inl ByteSwapImpl/SwapBytes"), ("host conversions", H + "Endianness.inl")],
  ["c17_a.cpp", "c17_b.cpp"], over=("inputs",), observe=["object bytes before and after"],
  technique="differential monitoring of object bytes, ASan/UBSan")

P("C18", "Hashes follow their published algorithms for every input and overload",
  "CRC-32 and FNV-1a (32 and 64 bits) of any byte string, with zero or high bytes and of any length, equal the published algorithms whichever way the bytes are passed (null-terminated string, view, buffer, functor), and only read the given bytes. Combining hashes follows the published mix: for a given seed distinct values never collide, equal values combine equally and order matters. The string hash gives the same result for every representation of the same characters, for every character type, so lookups by view or pointer find the stored string.",
  "random byte strings of 0 to 600 bytes biased to zero and high bytes, random seeds and values, four character types",
  "the tests hash three ASCII sentences",
  ["Hash.hpp", "Hash.inl", "StringHash.hpp", "StringHash.inl"], [("byte loops of the three overload sets", H + "Hash.inl CRC32/FNV1a32/FNV1a64"), ("mixing", H + "Hash.inl HashCombine"), ("per-representation overloads", H + "StringHash.inl")],
  ["c18_a.cpp"], over=("inputs",), observe=["hash values against bit-by-bit definitions", "reads past the data (ASan)"],
  technique="differential monitoring against reference hashes, ASan/UBSan", assumptions=["arrays of characters (string literals) passed to a function directly are not constrained: that overload counts the terminator"])

P("C19", "A checked cast keeps the value or stops the program",
  "Casting a number, enumerator, pointer or reference to any type able to represent it gives exactly that value or object (pointers adjusted under multiple inheritance, null kept), whether the operand is a variable, a constant, a temporary or a deferred cast, in every build. In checked builds a value the target cannot represent (out of range, negative to unsigned, fractional to integer) and a downcast to a class the object is not stop with an assertion, at any boundary of any pair of types, and a representable one never does.",
  "every pair of integer and floating-point types, values biased to both limits of the target, enumerations, class hierarchies with multiple inheritance",
  "the tests cast three literals and cannot observe a failing assertion",
  ["Algorithm.hpp", "Algorithm.inl"], [("range checks by type category", H + "Algorithm.inl SafeCast"), ("deferred cast", H + "Algorithm.inl SafeCaster")],
  ["c19_a.cpp", "c19_b.cpp"], over=("inputs", "configurations"), observe=["converted values", "how a forked child performing an invalid cast ends"],
  technique="differential monitoring plus death tests in forked children, UBSan", assumptions=["NaN, infinities and the precision of integer to floating-point casts are not constrained"])

P("C20", "A scope guard runs its functor exactly once, unless told not to",
  "The functor of a scope guard runs exactly once: when the guard is destroyed (at the end of the scope, whichever way it is left, exceptions included) or earlier when called explicitly or when another guard is assigned to it, which then takes over the other's functor; a reset guard never runs it. This holds when the functor throws (the exception reaches the caller and the functor is not run again) or uses its own guard. Deferred statements run in reverse order of their declaration and see the variables of their scope at that time.",
  "every history of guards created, called, reset, assigned (to themselves too) and destroyed, nested scopes left by return, break, continue or exception",
  "the tests check one guard and one defer at a time and never throw nor assign",
  ["CallOnExit.hpp", "CallOnExit.inl"], [("optional functor disarmed before its call", H + "CallOnExit.inl"), ("NAZARA_DEFER", H + "CallOnExit.hpp")],
  ["c20_a.cpp"], over=("histories", "programs"), observe=["the exact sequence of functor runs after every operation", "functor lifetimes"])

P("C21", "A function reference calls the referenced callable and nothing else",
  "Calling a function reference invokes the callable it refers to itself (its state is kept, its const or overloaded call operator respected), with exactly the given arguments: references designate the caller's objects, values are copied at most once and moved when possible, move-only types go through. Its result (reference, value or nothing) and its exceptions come back to the caller. Copies and assignments refer to the same callable, references to functions stay valid when the pointer they were made from changes, and a null reference tells it is null.",
  "every history of references to functions, closures, functors, members and other references; every form of argument and result",
  "the tests call a few closures directly; copies, moves of arguments, function pointers and const callables are not sampled",
  ["FunctionRef.hpp", "FunctionRef.inl"], [("type-erased callback and object address", H + "FunctionRef.inl FunctionRef(F&&)")],
  ["c21_a.cpp"], over=("histories", "programs"), observe=["results, callee state, copies of arguments counted by an object-lifetime monitor"], assumptions=["calling a null reference and references to temporary function objects are not constrained"])

P("C22", "An implementation holder owns its object like a value",
  "A private implementation holder, in place or on the heap, constructs its object once and destroys it once through any history of copies, moves, assignments (self-assignment included), emplacements and resets, with the alignment the object needs; a copy is a distinct equal object and constness extends to it. On the heap, moving transfers the object without moving it, an empty holder reports being empty and can be copied, and a failing constructor or allocation leaves every holder valid and nothing leaks.",
  "every history over both storage kinds, for copyable, move-only, non-assignable, over-aligned and multi-member objects, with a failure injected at any construction or allocation",
  "the tests build and read one object of each kind",
  ["PrivateImpl.hpp", "PrivateImpl.inl", "MovablePtr.inl"], [("placement construction and copy/move assignment", H + "PrivateImpl.inl operator="), ("owning pointer", H + "MovablePtr.inl")],
  ["c22_a.cpp"], over=("histories", "fault_sequences"), observe=["live-object registry, heap balance and values after every operation"],
  technique="object-lifetime monitor with fault injection under ASan/UBSan")

P("C23", "Movable members leave their source recognisably empty after a move",
  "A movable pointer or literal, alone or as a member of a class with implicit copy and move operations, behaves as the pointer or value it holds, except that moving it out leaves the source null or at its default; assigning by move leaves in the source either that or the previous content of the target, never a copy of the moved content. A movable value moves its content without copying it. Copies leave their source unchanged, self-assignment keeps the value, and constness and references designate the content itself.",
  "every history of copies, moves and assignments over pointers, integers, booleans, enumerations and observed objects",
  "the tests move one literal and one value once",
  ["MovablePtr.hpp", "MovablePtr.inl", "MovableValue.hpp", "MovableValue.inl"], [("move operations", H + "MovablePtr.inl / MovableValue.inl")],
  ["c23_a.cpp"], over=("histories",), observe=["content of every holder after every operation", "copies counted by an object-lifetime monitor"])

P("C24", "An enumeration array maps every enumerator to its own element",
  "Indexing an enumeration array by an enumerator designates the element at its position, for every enumerator of every enumeration (any underlying type, up to its last value), and the array otherwise behaves as a standard array of that many elements. Key-value iteration visits every enumerator once in order together with a reference to its element, and its iterators behave as random-access iterators: stepping, jumping, indexing, comparing and subtracting agree with positions, for constant arrays too.",
  "enumerations of 1 to 300 values over signed, unsigned, 8 to 64-bit underlying types, random walks of several iterators",
  "the tests index a small enumeration and iterate forwards; iterator arithmetic and narrow underlying types are not covered",
  ["EnumArray.hpp", "EnumArray.inl", "TypeTraits.hpp"], [("index conversion", H + "EnumArray.inl operator[]"), ("key-value iterator", H + "EnumArray.inl EnumArrayKvIterator"), ("value count", H + "TypeTraits.hpp EnumValueCount")],
  ["c24_a.cpp", "c24_b.cpp"], over=("histories", "inputs"), observe=["keys, element addresses and positions after each step"])

P("C25", "Text and path conversions keep every UTF-8 byte",
  "Converting a string, view or null-terminated string to and from the UTF-8 string type keeps every byte (zeroes included where the length is known), in every language version; views designate the original characters without copying. Building a path from UTF-8 text and converting it back gives the same text, whatever characters, components and nesting it has (repeated separators count as one), and composed paths convert to the composed text.",
  "random Unicode text of 0 to 200 characters over the whole code space, paths of 0 to 6 components, C++17 and C++20",
  "the tests convert one ASCII word",
  ["StringUtils.hpp", "StringUtils.inl", "PathUtils.hpp", "PathUtils.inl"], [("per-language-version overloads", H + "StringUtils.inl"), ("u8path / u8string", H + "PathUtils.inl")],
  ["c25_a.cpp"], over=("inputs", "configurations"), observe=["bytes and addresses of the conversions"], technique="differential monitoring of bytes on generated Unicode text, ASan/UBSan")

P("C26", "A broken precondition stops a checked build before any damage",
  "In a build with assertions, a call that breaks a precondition of a container or helper (position past the end, element of an empty container, growth over a fixed capacity, reversed range, bit out of range, freed or foreign pool entry, mismatched iterators, missing key, null callback) stops the program with a message before anything else runs; a call at the limit of what is allowed is never stopped. An assertion evaluates its condition exactly once when active and not at all when disabled, its report carries the text of the condition or the formatted message with the file and line, and the assertion functions check in every build and remain usable in constant expressions. The report is out before the program breaks into a debugger, which happens once, and a program resumed after the break still never runs past a failed assertion.",
  "every checked operation at and just beyond its limits for random contents and sizes; every form of the assertion macros under the four build settings",
  "a failing assertion stops the process, so the test program can only evaluate assertions that hold",
  ["Assert.hpp", "Assert.inl", "DebugBreak.hpp", "FixedVector.inl", "StackVector.inl", "StackArray.inl", "Bitset.inl", "MathUtils.inl", "MemoryPool.inl", "EnumArray.inl", "Flags.inl"], [("macros", H + "Assert.hpp NazaraAssert"), ("report then stop", H + "Assert.inl AssertFailureWithSource"), ("checks in each container", H + "FixedVector.inl, StackVector.inl, Bitset.inl, ...")],
  ["c26_a.cpp", "c26_b.cpp", "c26_c.cpp"], over=("inputs", "configurations"), observe=["how a forked child breaking a precondition ends, and what it printed", "evaluations of asserted conditions"],
  technique="death tests in forked children watched by a monitor, ASan/UBSan")

P("C27", "Compile-time evaluation gives the same results as running",
  "Bit primitives, integer and floating-point helpers, hashes, byte-order conversions, casts, flag sets, enumeration arrays, movable values, results and (from C++20) bitsets can be evaluated in constant expressions and give there, bit for bit, the results they give while running, in every supported language version and compiler. Code can tell which kind of evaluation it is part of. That evaluation is free of undefined behaviour for every argument of the domain, which the compiler enforces.",
  "tables of some hundred pseudo-random arguments or short histories per type, computed by the compiler and recomputed while running",
  "a test evaluates a function on one side only; functions branch on the kind of evaluation and use intrinsics on one side",
  ["MathUtils.hpp", "MathUtils.inl", "Hash.inl", "Endianness.inl", "Algorithm.inl", "Bitset.inl", "Flags.inl", "EnumArray.inl", "MovableValue.inl", "Result.inl", "ConstantEvaluated.hpp"], [("branches on constant evaluation", H + "MathUtils.inl NAZARA_IS_CONSTEVAL / NAZARA_IS_RUNTIME_EVAL"), ("constant expression support", H + "ConstantEvaluated.hpp")],
  ["c27_a.cpp"], over=("inputs", "configurations"), observe=["digests of the results of both evaluations"], technique="differential monitoring of run-time results against the compiler's constant evaluator, UBSan",
  quick_extra=["gcc23-assert-O2", "clang23-ndebug-O2"], assumptions=["the tables are fixed (the compiler cannot take a seed from the environment)", "operations whose standard library building blocks are not constexpr in C++17 (swap, invoke, reference_wrapper, vector) are evaluated in C++20 only"])

P("C28", "Type lists behave as sequences of types",
  "Appending, prepending, concatenating, indexing, searching, removing, deduplicating, transforming and counting the types of a list, or instantiating a template with them, gives what the same operation gives on a sequence, for lists of any length (empty ones included) and any types: incomplete, reference, function, void and list types, with duplicates. Applying a functor to a list calls it once per type, in order, with the given arguments.",
  "34 pseudo-random lists of 0 to 10, 35 and 58 types out of 16, every operation with every type of the alphabet",
  "the tests use lists of three or four distinct simple types",
  ["TypeList.hpp", "TypeList.inl", "TypeTag.hpp"], [("recursive list operations", H + "TypeList.inl")],
  ["c28_a.cpp", "c28_b.cpp"], over=("inputs", "programs"), observe=["the list each operation yields, reflected while running, and the calls a list application makes"], technique="differential monitoring of reflected types against a sequence model")

P("C29", "Function and type descriptions match what they describe",
  "For every callable type (functions, function pointers, member functions with any qualifiers, closures, functors, constant or by reference), the reported argument count, argument types, result type and function type are those of its signature. Selecting an overload by its argument types designates exactly that overload, for free, static and member functions. Names of types are the compiler's name of the type, nothing cut or added, and they compose; enumeration counts, completeness, concepts and the other type queries agree with the definition of the type.",
  "24 pseudo-random signatures of 0 to 5 arguments in 50 shapes each, 26 overload sets members, 80 names, every type query",
  "the tests describe a few signatures and name two types",
  ["FunctionTraits.hpp", "Concepts.hpp", "TypeTraits.hpp", "TypeName.hpp", "TypeName.inl", "TypeTag.hpp"], [("signature matching", H + "FunctionTraits.hpp FunctionTraits"), ("overload selection", H + "TypeTraits.hpp Overload"), ("name extraction from the compiler's signature text", H + "TypeName.inl")],
  ["c29_a.cpp"], over=("inputs", "programs"), observe=["descriptions reflected while running, functions reached through selected overloads"], technique="differential monitoring of reflected descriptions against the signatures the callables were built from")

P("C30", "Raw memory and pointer helpers designate exactly the object asked for",
  "The offset reported for a member, inherited members included, is the distance to that member in every object of the class, and accessing an object by offset reaches that member and nothing else. Pointers survive the trip through any integer type that can hold them, bit casts keep every bit, casts of owning pointers transfer the same object exactly once, in-place construction builds with exactly the given arguments and leaves nothing behind when it throws, in-place destruction destroys once and ignores null, and a lookup designates the container's own element. Stack allocations of any size, zero included, give distinct usable blocks; the branch macros evaluate their condition once and keep its truth.",
  "160 generated class layouts, random buffers, integers, ownership and construction histories",
  "the tests sample a few values, and no test covers offsets, placement or owning-pointer casts of other shapes",
  ["Algorithm.hpp", "Algorithm.inl", "MemoryHelper.hpp", "MemoryHelper.inl", "OffsetOf.hpp", "Prerequisites.hpp"], [("member offsets", H + "OffsetOf.hpp NazaraOffsetOf"), ("typed access", H + "Algorithm.inl AccessByOffset, PointerToInteger, StaticUniquePointerCast"), ("placement", H + "MemoryHelper.inl")],
  ["c30_a.cpp", "c30_b.cpp"], over=("inputs", "histories", "programs"), observe=["addresses of members, bytes of buffers, live-object registry and heap balance"], technique="monitoring of addresses and object lifetimes on generated layouts and histories, ASan/UBSan")

P("C31", "Distinct objects may be used from distinct threads, constant ones shared",
  "Objects used by one thread at a time never race, whatever other objects other threads use: each behaves as if its history ran alone, also when it is built, used and destroyed by different threads handing it over. Constant operations of containers and value types on a shared object, and functions without state, may run in several threads at once and all give the same results. No operation keeps hidden state shared between objects or threads.",
  "2 to 6 threads over ten kinds of objects, with random histories, hand-overs and delays; besides, the histories of all the other properties, 2 to 4 at a time in threads of their own",
  "the tests are single-threaded; hidden shared state only shows between threads",
  ["Bitset.inl", "FixedVector.inl", "StackVector.inl", "MemoryPool.inl", "Signal.inl", "Hash.inl", "MathUtils.inl", "PrivateImpl.inl", "Result.inl", "StringUtils.inl", "PathUtils.inl"], [("no hidden shared state", H + "*.inl (every operation)"), ("per-object state", H + "Signal.inl, MemoryPool.inl")],
  ["c31_a.cpp"], over=("schedules", "histories"), observe=["every memory access, by a happens-before race detector", "digests of the states and results of each object, per thread", "the oracles of the other properties, in each thread", "interleavings of operations, from a global order of tickets"], technique="happens-before race detection (ThreadSanitizer) and differential monitoring against the same histories run alone",
  configs=["tsan-clang17-assert", "tsan-gcc20-ndebug"], threads_of=[f"C{i:02}" for i in range(1, 31) if i != 26], scale=15, nofuzz=True, assumptions=["emitting one signal from several threads at once is not supported and not exercised", "the standard library objects inside the library's are not shared beyond const access"])

P("C32", "Every header works alone, in any order and in several translation units",
  "A program that includes a single public header, once or several times, compiles and gets everything that header offers. What a header gives depends neither on the other headers included nor on their order: every operation has the same results in every translation unit. A program whose translation units include all of the headers links.",
  "every public header included alone (twice), and all of them in eleven orders, each in a translation unit with a library of its own; two further units share one library",
  "a test program includes headers in one order after a test framework that brings half of the standard library; missing includes and overloads that depend on them go unseen",
  ["Algorithm.hpp", "Bitset.hpp", "Constants.hpp", "FixedVector.hpp", "MathUtils.hpp", "MathUtils.inl", "Signal.hpp", "StackVector.hpp", "OffsetOf.hpp", "Prerequisites.hpp"], [("what each header includes", H + "*.hpp #include"), ("overloads of the mathematical functions", H + "MathUtils.inl std::abs, std::fma"), ("inline definitions", H + "*.inl")],
  ["c32_a.cpp"] + sorted(os.path.basename(f) for f in glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/src/c32_*.cpp") if not f.endswith("c32_a.cpp")), over=("programs", "inputs", "configurations"), observe=["compilation of each translation unit and linking of all of them", "digests of what the operations of each header gave, per translation unit"],
  technique="differential monitoring of the same operations across translation units that include the headers differently, ASan/UBSan", nofuzz=True, about_headers=True, assumptions=["each unit but two renames the library's namespace, so that its copy of an inline function cannot be replaced by another unit's"])
P("C33", "Platform, compiler, language version and byte order are recognised everywhere",
  "On every supported platform and compiler, exactly the macros of that platform, architecture and compiler are defined, the version checks compare with its real version, and the byte order is the machine's. The conversions between the host's byte order and a fixed one follow it. Attributes and unreachable branches never change the result of a program, whether the compiler supports them or not.",
  "the predefined macros of 72 environments (43 platforms of clang, mingw and its threading models, GCC on nine of them, MSVC of two language versions on five architectures, ICC, an unknown compiler), versions around and far from the real one; seven sets of available attributes",
  "tests run on the machine that builds them; the branches for other platforms are never compiled there",
  ["Prerequisites.hpp", "Endianness.hpp", "Endianness.inl"], [("platforms, compilers, architectures", H + "Prerequisites.hpp NAZARA_PLATFORM_*, NAZARA_COMPILER_*, NAZARA_ARCH_*, NAZARA_CHECK_*"), ("attributes", H + "Prerequisites.hpp NAZARA_LIKELY, NAZARA_UNREACHABLE, NAZARA_FORCEINLINE"), ("byte order", H + "Endianness.hpp NAZARA_BIG_ENDIAN, Endianness.inl")],
  ["c33_a.cpp"] + sorted(os.path.basename(f) for f in glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/src/c33_*.cpp") if not f.endswith("c33_a.cpp")), over=("configurations", "inputs"), observe=["the macros defined and the results of the checks in each simulated environment", "results of byte order conversions compiled for each environment", "results of functions using the attributes"],
  technique="runtime monitoring of translation units that see the predefined macros of each platform, compared with a table of platforms, ASan/UBSan", nofuzz=True, about_headers=True, assumptions=["a platform is simulated by the macros its compiler predefines (clang's own lists, and the documented ones of MSVC, ICC, the NDK and mingw); code is generated for this machine"])
