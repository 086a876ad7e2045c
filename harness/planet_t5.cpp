#define PART 5
#define MAKE make_5
#include "planet_types.inc"
