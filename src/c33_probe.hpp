// C33: what one translation unit of a simulated platform tells the driver
#pragma once
// every standard header the library may want, read before the compiler pretends to be another one
#if __has_include(<bit>)
#include <bit>
#endif
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <version>
namespace c33
{
	struct Env // of one platform
	{
		const char* name; const char* want; const char* const* got; long version, cpp, wantCpp; char is;
		bool (*check[6])(long); // GCC, clang, MSVC, ICC, NDK, language
		const char* exported; const char* imported; Env* next;
	};
	struct Order // of bytes on one platform
	{
		const char* name; bool big, bigDefined, littleDefined; int platform; std::uint32_t (*convert[4])(std::uint32_t); Order* next; // host to big, to little, big to host, little to host
	};
	struct Feature { const char* name; const char* (*run)(int x); Feature* next; }; // nullptr when right
	inline Env* envs = nullptr; inline Order* orders = nullptr; inline Feature* features = nullptr;
	struct Reg { Reg(Env& e) { e.next = envs; envs = &e; } Reg(Order& o) { o.next = orders; orders = &o; } Reg(Feature& f) { f.next = features; features = &f; } };
}
