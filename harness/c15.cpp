#define C15_PART 3
#include "c15_parts.inc"
