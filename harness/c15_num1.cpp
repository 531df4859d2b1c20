#define C15_PART 1
#include "c15_parts.inc"
