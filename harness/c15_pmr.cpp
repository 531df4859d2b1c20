#include <unistd.h>
#include "c15.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C15_FN(x) x##_pmr

#include "c15.inc"
