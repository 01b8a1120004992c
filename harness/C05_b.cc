// FLAGS: -DTOON_INITIALIZE_SNAN
// BOUNDS: resizable vectors of size 0..6; every history of 2 (thorough 3) operations (resize/assign/swap) with symbolic sizes and values; compiled with -DTOON_INITIALIZE_SNAN
#include "C05_body.h"
