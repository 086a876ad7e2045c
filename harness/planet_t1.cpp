#define PART 1
#define MAKE make_1
#include "planet_types.inc"
