// FLAGS: -DTOON_NDEBUG
// OPTS: time=40
#include "nodebug.h"
#include "A03.cc"
