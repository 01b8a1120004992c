// FLAGS: -DTOON_INITIALIZE_VAL=7
// BOUNDS: resizable vectors of size 0..6; every history of 2 (thorough 3) operations (resize/assign/swap) with symbolic sizes and values; compiled with -DTOON_INITIALIZE_VAL=7
#include "C05_body.h"
