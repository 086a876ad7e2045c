#define PART 3
#define MAKE make_3
#include "planet_types.inc"
