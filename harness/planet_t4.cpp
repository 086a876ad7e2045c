#define PART 4
#define MAKE make_4
#include "planet_types.inc"
