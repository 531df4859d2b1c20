#include <unistd.h>
#include "c10.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C10_FN(x) x##_pmr

#include "c10.inc"
