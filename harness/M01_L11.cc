// FLAGS: -DTOON_CHECK_BOUNDS
// LIBS: -llapack -lblas
// OPTS: time=40
#include "bounds.h"
#include "L11.cc"
