#pragma once
#include "tobj.h"
#include "test_object/ppmr_allocator/CreatorObject.h"
#include "test_object/ppmr_allocator/DebugStringObject.h"
#include "test_object/ppmr_allocator/DebugStringParamObject.h"
#include "test_object/ppmr_allocator/ReflectableObject.h"
#include "test_object/ppmr_allocator/ReflectableUtilUnion.h"
#include "test_object/ppmr_allocator/WalkerObject.h"
#define TOBJ_NS ppmr_allocator
#include "tobj_ns.inc"
#undef TOBJ_NS
