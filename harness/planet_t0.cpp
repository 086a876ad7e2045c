#define PART 0
#define MAKE make_0
#include "planet_types.inc"
