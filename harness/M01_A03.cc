// FLAGS: -DTOON_CHECK_BOUNDS
// OPTS: time=40
#include "bounds.h"
#include "A03.cc"
