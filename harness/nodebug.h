// Included ahead of another harness file's body, in a build with the debug checks left out: uses outside the contract
// end there, everything inside it must still give the asserted results.
#pragma once
#include "vsym.h"
#include <cstdlib>
static inline void vs_outside_(int b) { if (b) { vs_check(1, "outside the contract"); vs_abort_ok(1); std::abort(); } }
#define vs_abort_ok(b) vs_outside_(b)
