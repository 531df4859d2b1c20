#pragma once
#include "tobj_pmr.h"

#include "allobj.h"
#define TOBJ_NS pmr_allocator
#include "allobj_ns.inc"
#undef TOBJ_NS
