#pragma once
#include "tobj.h"
#include "test_object/pmr_allocator/CreatorObject.h"
#include "test_object/pmr_allocator/DebugStringObject.h"
#include "test_object/pmr_allocator/DebugStringParamObject.h"
#include "test_object/pmr_allocator/ReflectableObject.h"
#include "test_object/pmr_allocator/ReflectableUtilUnion.h"
#include "test_object/pmr_allocator/WalkerObject.h"
#define TOBJ_NS pmr_allocator
#include "tobj_ns.inc"
#undef TOBJ_NS
