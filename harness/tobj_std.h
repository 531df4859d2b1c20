#pragma once
#include "tobj.h"
#include "test_object/std_allocator/CreatorObject.h"
#include "test_object/std_allocator/DebugStringObject.h"
#include "test_object/std_allocator/DebugStringParamObject.h"
#include "test_object/std_allocator/ReflectableObject.h"
#include "test_object/std_allocator/ReflectableUtilUnion.h"
#include "test_object/std_allocator/WalkerObject.h"
#define TOBJ_NS std_allocator
#include "tobj_ns.inc"
#undef TOBJ_NS
