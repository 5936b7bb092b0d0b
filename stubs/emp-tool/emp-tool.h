// Stub of emp-tool (not installed): declarations only, so that the headers that mention it parse.
#pragma once
#include <emmintrin.h>
#include <cstdint>
#include <cstddef>
namespace emp {
using block = __m128i;
struct Group { unsigned char* scratch; void resize_scratch(size_t); };
struct Point { Group* group; size_t size() { return 0; } void to_bin(unsigned char*, size_t) {} void from_bin(Group*, const unsigned char*, size_t) {} };
}
