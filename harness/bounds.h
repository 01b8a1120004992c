// Included ahead of another harness file's body: the same uses of the library, with every in-contract assertion turned
// into a mere use of its operands, so that what remains to be decided is whether a bounds check can stop the program.
#pragma once
#include "vsym.h"
template<class... A> static inline void vs_sink_(const A&...) { vs_check(1, "reached without a bounds check stopping the program"); }
#define vs_eq(...) vs_sink_(__VA_ARGS__)
#define vs_eqi(...) vs_sink_(__VA_ARGS__)
#define vs_le(...) vs_sink_(__VA_ARGS__)
#undef CHECK
#define CHECK(c, l) vs_sink_(c)
