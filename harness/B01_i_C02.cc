// FLAGS: -DTOON_INITIALIZE_VAL=7
// OPTS: time=40
#include "C02.cc"
