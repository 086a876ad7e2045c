#define PART 2
#define MAKE make_2
#include "planet_types.inc"
