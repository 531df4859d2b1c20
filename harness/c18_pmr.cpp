#include "c18.h"
#include "allobj.h"
#include "tobj_pmr.h"
#define TOBJ_NS pmr_allocator
#define C18_FN(x) x##_pmr

#include "c18.inc"
