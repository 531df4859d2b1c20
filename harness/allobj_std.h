#pragma once
#include "tobj_std.h"

#include "allobj.h"
#define TOBJ_NS std_allocator
#include "allobj_ns.inc"
#undef TOBJ_NS
