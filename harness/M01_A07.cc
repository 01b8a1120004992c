// FLAGS: -DTOON_CHECK_BOUNDS -fcx-limited-range
// OPTS: time=40
#include "bounds.h"
#include "A07.cc"
