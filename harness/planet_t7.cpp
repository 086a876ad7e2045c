#define PART 7
#define MAKE make_7
#include "planet_types.inc"
