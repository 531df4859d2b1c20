#pragma once
#include "tobj_ppmr.h"

#include "allobj.h"
#define TOBJ_NS ppmr_allocator
#include "allobj_ns.inc"
#undef TOBJ_NS
