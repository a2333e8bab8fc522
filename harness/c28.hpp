// values as storage: what a type is made of and what a translation unit can tell another about it
#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <limits>
#include <cmath>
#include <string>
struct Api28 { const char*type; unsigned size,align,bits; bool trivial,poly; int64_t (*fresh)(int how); uint64_t (*run)(int op,const void*,const void*); int nops; void (*callee)(); uint64_t (*caller)(void(*)(),const void*,const void*); };
struct Tu28 { const char*how; const Api28*api; int n; };
