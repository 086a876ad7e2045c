#define PART 6
#define MAKE make_6
#include "planet_types.inc"
