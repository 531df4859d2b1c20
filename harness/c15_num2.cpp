#define C15_PART 2
#include "c15_parts.inc"
