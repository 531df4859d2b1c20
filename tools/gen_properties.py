#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run after editing; writes the file next to tools/)."""
import json, os
S = "runtime/src/zserio/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": [S + f if "/" not in f or f.startswith(("pmr/", "ppmr/")) else f for f in files],
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "Bit stream write/read round trip at every bit position",
     "Any sequence of values written with the bit stream writer (bit fields, bool, varints, varsize, floats, bytes, strings, bit buffers, alignment) is read back by the bit stream reader, using the same sequence of calls, as exactly the same values. "
     "Writer and reader report identical bit positions after every call, setting a bit position resumes exactly there, and bits that were not the target of a write keep their previous content.",
     ["inputs", "histories"], "every value of every primitive, every start bit offset, every sequence of mixed calls including alignment and repositioning",
     "The tests write fixed tables of values, mostly one kind at a time from a few offsets; the product of kind, width, value, bit offset and call history (the reader caches 32/64 bits) is not sampled.",
     ["BitStreamReader.cpp", "BitStreamReader.h", "BitStreamWriter.cpp", "BitStreamWriter.h", "BuiltInOperators.cpp"],
     [("bit cache refill and masking", S+"BitStreamReader.cpp"), ("partial-byte merge on write", S+"BitStreamWriter.cpp")],
     ["values and bit positions returned by the public reader and writer calls", "content of the written buffer"],
     [("bit position", "next bit to write or read", "BitStreamWriter / BitStreamReader context")])

prop("C02", "Encoded bytes conform to the zserio wire format",
     "For every value, the bits produced equal those the zserio encoding prescribes: big-endian most-significant-bit-first bit fields, the 16/32/64/max-bit variable-length integers in their shortest form, varsize-prefixed bytes, strings and bit buffers, and IEEE 754 half, single and double precision floats. "
     "Conversely every well-formed encoding, including one placed at an unaligned bit position, decodes to the value it denotes.",
     ["inputs"], "every value of every built-in type (boundary-dense sampling plus exhaustive 16-bit types) at every bit offset",
     "Round-trip tests pass when the writer and reader are wrong in the same way; interoperability needs an independent encoder, which the tests only have as a few hand-written byte vectors.",
     ["BitStreamReader.cpp", "BitStreamWriter.cpp", "Types.cpp", "Types.h", "FloatUtil.cpp", "Bytes.cpp", "String.cpp"],
     [("varint sign, has-next and 6/7/8 bit groups", S+"BitStreamWriter.cpp"), ("varint decoding", S+"BitStreamReader.cpp"), ("generic write/read overloads on wrapper types", S+"Types.h")],
     ["buffer content after writing", "value returned after reading reference bytes"])

prop("C03", "Writer rejects what does not fit and never writes outside its buffer",
     "A write whose bit count is invalid, whose value does not fit the requested width or type range, or which would pass the end of the supplied buffer throws the runtime's exception instead of storing a truncated value. "
     "No write, whatever the sequence of calls, positions and sizes, changes a byte outside the supplied bit range, and a rejected write leaves the earlier bits intact and the writer usable.",
     ["inputs", "histories"], "every width 0..65+, every value around each width limit, every buffer size in bits and every fill position, null and empty buffers",
     "The tests try single over-range values and one overflow each; they run without guard regions around the buffer and do not continue after an error.",
     ["BitStreamWriter.cpp", "BitStreamWriter.h", "BitFieldUtil.cpp", "SizeConvertUtil.cpp"],
     [("bit count and value range checks", S+"BitStreamWriter.cpp"), ("buffer capacity check", S+"BitStreamWriter.cpp")],
     ["guard bytes around the buffer, AddressSanitizer reports, exception type, bit position after the throw"])

prop("C04", "Reader is memory safe and exact on arbitrary input",
     "For every byte buffer, bit size and sequence of read, alignment and positioning calls the reader either returns the value determined by the bits inside the given bit size or throws the runtime's exception; it never reads outside the buffer, has no undefined behaviour, and never returns a value that uses bits beyond the end. "
     "After a failed read it stays usable: reads after repositioning return the bits at that position, and further reads past the end keep failing.",
     ["inputs", "histories"], "arbitrary buffers and bit sizes including empty and unaligned ends, arbitrary call sequences continuing after errors",
     "Tests feed well-formed data and one end-of-stream case; hostile lengths, unaligned ends and histories that continue after an exception are not reached.",
     ["BitStreamReader.cpp", "BitStreamReader.h", "BitBuffer.h", "Bytes.cpp", "String.cpp"],
     [("end-of-stream checks", S+"BitStreamReader.cpp"), ("varsize range check", S+"BitStreamReader.cpp")],
     ["AddressSanitizer/UBSan on exactly sized heap buffers", "value compared with a bit-level reference reader"])

prop("C05", "Predicted bit size and offsets equal what is written",
     "For every value, array, packed array and object (encoding below 2^32 bits, the range of the bit size type) and every start bit position, the bit size computed in advance equals the number of bits that writing it at that position then produces. "
     "Offset initialisation ends at the same position, so serialisation never runs out of buffer and never leaves unused trailing bytes.",
     ["inputs"], "all built-in types, array kinds (plain, auto, aligned, implicit; packed or not), test objects, and start positions 0..7 and beyond",
     "Size functions are checked for chosen values at position 0 or 1; agreement between three separately written traversals (size, offsets, write) is a relation over all inputs.",
     ["Types.h", "Types.cpp", "ArrayView.h", "ArrayTraits.h", "DeltaContext.h", "Bytes.cpp", "String.cpp", "BitBuffer.h", "SerializeUtil.h", "BitPositionUtil.h"],
     [("bitSizeOf overloads", S+"Types.cpp"), ("array and packed array size", S+"ArrayView.h"), ("buffer sized from initializeOffsets", S+"SerializeUtil.h")],
     ["bitSizeOf / initializeOffsets results against writer bit position"])

prop("C06", "Array round trip for every element type and array kind",
     "Writing an array as normal, auto-length, aligned, or implicit-length array and reading it back with the same parameters yields the same elements, for every element type, length and start bit position, aligned elements start on byte boundaries, and element access and iteration of an array view agree with the underlying sequence. "
     "An array length that does not match the declared length is rejected, and offset initialisation reports each aligned element's true byte position.",
     ["inputs"], "element types (bool, fixed and dynamic bit fields, varints, floats, bytes, strings, bit buffers, enums, bitmasks, objects) x kinds x lengths x positions",
     "Existing tests use short arrays with a few values per type; element count, alignment padding and start position interact.",
     ["ArrayView.h", "ArrayTraits.h", "Types.h", "Enums.h", "Bitmasks.h"],
     [("per-kind array read/write", S+"ArrayView.h"), ("array length check", S+"ArrayView.h")],
     ["arrays read back; positions of aligned elements; encoded bytes compared with a reference encoder"])

prop("C07", "Packed arrays are lossless, follow the encoding and never cost more",
     "Every packed array decodes to the original elements, whatever the values, deltas, length and element type, including extreme and wrapping differences. "
     "Its encoding equals the one the delta rules prescribe (descriptor, first element, fixed-width signed deltas), and packing is chosen exactly when it is smaller, so a packed field never costs more than the unpacked field plus its one-bit descriptor.",
     ["inputs"], "all element types, lengths 0..hundreds, value distributions (constant, monotone, random, extreme alternating), nested structures with one context per field, every start position",
     "Tests check a dozen hand-picked sequences; delta overflow and the packed/unpacked decision depend on value extremes across the whole array.",
     ["DeltaContext.h", "ArrayView.h", "ArrayTraits.h", "Types.h"],
     [("delta bit width and pack decision", S+"DeltaContext.h"), ("packed array traversal", S+"ArrayView.h")],
     ["encoded bits against an independent delta encoder; decoded arrays; bit sizes"],
     [("maximum delta width", "bits needed by the largest delta", "DeltaContext")])

prop("C08", "Numeric domains are enforced exactly",
     "For every built-in numeric type, fixed or dynamic width, the published minimum and maximum are the true bounds of the encoding, and validation accepts exactly the values inside them. "
     "A value outside its domain (integer range, bit field width, varsize limit, parameter or condition mismatch, unset choice or union) is rejected with the runtime's exception before a single byte is produced, and an unknown enumerator is rejected when decoded or looked up.",
     ["inputs"], "every type, every dynamic width, values at, next to and far from each bound; objects with each single field made invalid",
     "Tests check the bounds of selected widths; exactness means both no false reject and no false accept for every width and every value.",
     ["Types.h", "Types.cpp", "BitFieldUtil.cpp", "Enums.h", "Bitmasks.h", "View.h", "SerializeUtil.h", "OutOfRangeException.h"],
     [("NumericLimits and range check", S+"Types.h"), ("bit field bounds", S+"BitFieldUtil.cpp"), ("validate before serialise", S+"SerializeUtil.h")],
     ["validate / serialize outcome against bounds computed with wide integers"])

prop("C09", "Float conversions are exact and total",
     "Every half-precision bit pattern converts to the single-precision value it denotes, and back to the same pattern; every single-precision value converts to the nearest half-precision value (ties away from zero), overflowing to infinity, magnitudes below the smallest half-precision subnormal becoming signed zero, and NaN staying NaN. "
     "Single and double precision patterns survive conversion in both directions bit for bit.",
     ["inputs"], "all 65536 half patterns, boundary-dense and random (thorough: all 2^32) single patterns, random double patterns",
     "Tests check selected exponents and rounding cases; subnormals, overflow and NaN payloads are regions of the input space.",
     ["FloatUtil.cpp", "FloatUtil.h"],
     [("half/single conversion with rounding", S+"FloatUtil.cpp")],
     ["conversion results against an independent arithmetic model and compiler half-precision conversion"])

prop("C10", "Object serialisation round trip across allocators and entry points",
     "For every valid object, serialising it to a bit buffer, byte vector or file and deserialising with the same parameters yields an object equal to the original, and re-serialising that gives identical bytes. "
     "The result is the same for standard, polymorphic and propagating polymorphic allocators, and a deserialised object owns its data independently of the source buffer.",
     ["inputs", "configurations"], "random valid instances of every test object (structures, choices, unions, optionals, arrays, externs, bytes, enums, bitmasks, parameters) in all three allocator configurations",
     "Tests serialise a handful of fixed objects; field combinations, empty/large arrays, unaligned fields and allocator variants are a product space.",
     ["SerializeUtil.h", "DataView.h", "View.h", "ArrayView.h", "Optional.h", "Variant.h", "FileUtil.cpp"],
     [("serialize / deserialize entry points", S+"SerializeUtil.h"), ("owning data view", S+"DataView.h")],
     ["objects, bytes and files at the entry points"])

prop("C11", "Deserialising hostile data is safe and bounded",
     "Deserialising any byte sequence, as any object type and with any parameters, either yields an object or throws a standard exception derived from the runtime's error types; it never crashes, reads out of bounds, leaks or has undefined behaviour. "
     "Memory reserved ahead of decoding is bounded by the data actually present and the configured preallocation limit, not by a length claimed in the data, and any accepted object is either rejected by validation or re-serialises to an equivalent encoding.",
     ["inputs"], "random, truncated, bit-flipped and length-forged encodings of all test objects and array types",
     "The tests contain no malformed object streams beyond a few truncated ones; memory safety and bounded allocation are claims about all inputs.",
     ["ArrayView.h", "SerializeUtil.h", "BitStreamReader.cpp", "DeltaContext.h", "Bytes.cpp", "String.cpp", "Enums.h"],
     [("length check against remaining bits", S+"ArrayView.h"), ("preallocation limit", S+"ArrayView.h"), ("stream end checks", S+"BitStreamReader.cpp")],
     ["sanitizer reports, exceptions, peak allocation seen by a tracking allocator"])

prop("C12", "Optional holders behave as value types and manage lifetime exactly",
     "After any sequence of construct, assign, move, swap, emplace, reset and compare operations (also when element operations throw, and also self-assignment), an optional, inplace or heap allocated, holds exactly the value a reference model predicts and comparison and hashing follow the value. "
     "Every contained object is constructed once and destroyed once, access to an empty holder throws, and no memory is leaked or touched after release.",
     ["histories", "fault_sequences"], "random operation histories over pools of optionals, with elements that throw in copy/move and with equal and unequal allocators",
     "Tests exercise each operation once from a known state; double destruction and aliasing need particular sequences.",
     ["Optional.h", "Optional.cpp", "AllocatorHolder.h", "UniquePtr.h"],
     [("inplace and heap storage", S+"Optional.h"), ("allocator-aware deleter", S+"UniquePtr.h")],
     ["instance-counting elements, tracking allocators, model comparison after every step"])

prop("C13", "Variant behaves as a tagged union and manages lifetime exactly",
     "After any sequence of construct, emplace, assign, move, swap and visit operations (also when an alternative's constructor throws), a variant holds exactly the alternative and value a reference model predicts, getters of the wrong alternative throw or return null, and visiting calls the active alternative only. "
     "Every contained object is constructed once and destroyed once, and no memory is leaked or touched after release, for small inline and large heap alternatives and for every allocator.",
     ["histories", "fault_sequences"], "random operation histories over pools of variants with small, large, throwing and duplicate-type alternatives",
     "Tests exercise each operation once; leaks, stale indexes and aliasing need particular sequences and throwing alternatives.",
     ["Variant.h", "Variant.cpp", "UniquePtr.h", "AllocatorHolder.h"],
     [("inplace/heap storage per alternative", S+"Variant.h")],
     ["instance-counting alternatives, tracking allocators, model comparison"])

prop("C14", "Any holder preserves its value and manages lifetime exactly",
     "After any sequence of set, assign, copy, move, swap, reset and get operations (also when element operations throw), a type-erased holder holds exactly the type and value a reference model predicts, typed access with another type throws, and an empty holder reports empty. "
     "Every contained object is constructed once and destroyed once with the allocator that created it, with no leak or use after release, for inline and heap stored values.",
     ["histories", "fault_sequences"], "random operation histories over pools of holders with values of several sizes, throwing copies and unequal allocators",
     "Tests exercise each operation from one state and never inject throwing copies.",
     ["Any.h", "AllocatorHolder.h", "UniquePtr.h", "RebindAlloc.h", "ppmr/Any.h", "pmr/Any.h"],
     [("inline / heap holder with clone and move", S+"Any.h")],
     ["instance-counting values, tracking allocators, model comparison"])

prop("C15", "Comparison and hashing obey the laws of values",
     "For all values of every comparable type (numeric wrappers, bytes, bit buffers, enums, bitmasks, optionals, variants, extended fields, arrays and objects), equality is an equivalence that coincides with field-wise equality, less-than is a strict weak order consistent with equality, and the derived operators agree with them (NaN compares as in C++). "
     "Numbers are ordered by value, sequences lexicographically, holders without value (absent, unset) before those with one. Equal values always have equal hash codes, hash codes are reproducible, and copies compare equal to their source.",
     ["inputs"], "pairs and triples of random values that differ in at most a few fields, including bit-level differences, for all test objects and built-in types",
     "Tests compare fixed pairs; laws quantify over all pairs and triples, and a field forgotten in one operator shows only when that field alone differs.",
     ["HashCodeUtil.h", "Types.h", "BitBuffer.h", "Bytes.h", "Optional.h", "Variant.h", "Extended.h", "View.h", "Enums.h", "Bitmasks.h"],
     [("calcHashCode overloads", S+"HashCodeUtil.h"), ("view comparison operators", S+"View.h")],
     ["results of ==, !=, <, <=, >, >= and calcHashCode"])

prop("C16", "JSON written for an object reads back to the same object",
     "For every object, the JSON produced (any indentation, separators and enum/bitmask formats, debug-string helpers, stream or file) is well-formed JSON describing exactly the object's fields, and reading it back with the object's type information reconstructs an object with equal field values. "
     "Strings with arbitrary characters, byte and bit buffers, all integer extremes, floats, nulls, unset optionals and nested arrays are preserved.",
     ["inputs", "configurations"], "random objects and scalar values of every type x writer configurations",
     "Tests compare fixed text for fixed objects; escape sequences, number formatting and option combinations are a large input space.",
     ["JsonWriter.h", "JsonEncoder.cpp", "JsonReader.h", "JsonDecoder.h", "JsonParser.h", "JsonTokenizer.cpp", "DebugStringUtil.h"],
     [("JSON encoding of strings and numbers", S+"JsonEncoder.cpp"), ("creator-driven JSON reader", S+"JsonReader.h")],
     ["text produced parsed by an independent JSON parser; reconstructed object compared field by field"])

prop("C17", "JSON input of any shape is handled safely and faithfully",
     "Any text given to the JSON reader, parser, tokenizer or decoder is either parsed into events and values that agree with the JSON grammar (whitespace, chunk boundaries and document size make no difference) or rejected with the runtime's JSON exception; it never crashes, hangs, reads beyond the given text or leaks. "
     "A reader that reported an error or finished one document does not let that state leak into the result of the next.",
     ["inputs", "histories"], "valid documents, mutated documents, random text, documents of any size relative to the internal chunk size, within a bounded nesting depth",
     "Tests feed short handwritten documents; chunk-boundary behaviour appears only beyond 64 KiB and malformed input is sampled by a few cases.",
     ["JsonTokenizer.cpp", "JsonTokenizer.h", "JsonParser.h", "JsonDecoder.h", "JsonReader.h"],
     [("chunked tokenizer", S+"JsonTokenizer.cpp"), ("literal and number decoding", S+"JsonDecoder.h")],
     ["token/event sequence against an independent JSON tokenizer; sanitizers; instrumented allocators"])

prop("C18", "Reflection shows and changes exactly the underlying data",
     "For every object, every value obtained through reflection (fields, parameters, functions, array elements, find by path, type-specific and converting getters, any-values) equals the value read directly from the data, and every change made through reflection (set, append, resize, create, assign) is visible in the data exactly as if made directly. "
     "Invalid access - wrong type, unknown name, index out of range, mutation through a constant handle - throws and changes nothing. The generic comparison of reflected objects says equal exactly if types and contents are (floating point numbers up to rounding errors).",
     ["inputs", "histories"], "random objects of all test types x every reflectable accessor x every path",
     "Tests walk fixed objects; the accessor set times value kinds times constness is large, and wrong-type accesses must be rejected for every combination.",
     ["ReflectableData.h", "IReflectableData.h", "IntrospectableView.h", "IntrospectableDataBase.h", "ReflectableUtil.h"],
     [("reflectable factories and adapters", S+"ReflectableData.h"), ("path lookup", S+"IntrospectableDataBase.h")],
     ["reflection results against direct member access"])

prop("C19", "Tree walking visits exactly the object's tree in order",
     "Walking an object reports each present field, array element and selected choice branch exactly once, in schema order, inside properly nested begin/end events with the right element index, and reports unset ones as null values. "
     "Each standard filter (depth, regular expression path, array length, conjunction, accept-all) admits exactly the nodes its rule describes, and stopping requested by a filter ends only the level it concerns.",
     ["inputs"], "random objects x random filters and filter combinations, const and non-const",
     "Tests check counters on one fixed object per filter; nesting and filter decisions depend on the object's shape.",
     ["Walker.h", "WalkerConst.h", "IWalkObserver.h", "IWalkFilter.h"],
     [("recursive walk with before/after filtering", S+"Walker.h")],
     ["recorded event sequence against a reference walk over the reflected tree"])

prop("C20", "Type information describes the data truthfully",
     "For every built-in type and test type, the type information reports names, kinds, field order, bit sizes, array and optional properties, enum and bitmask items that agree with the type's actual encoding and the data the reflection interface shows. "
     "Queries that do not apply to a type throw, and repeated or concurrent queries return the same objects.",
     ["inputs", "programs"], "all type info objects reachable from all test types and all built-in type infos, all accessors on each",
     "Tests check a selection of accessors per type; agreement with the real encoding is never checked.",
     ["TypeInfo.h", "ITypeInfo.h", "TypeInfoUtil.cpp"],
     [("type info implementations", S+"TypeInfo.h"), ("type classification", S+"TypeInfoUtil.cpp")],
     ["type info accessors against measured encodings and reflection"])

prop("C21", "Tree creator builds exactly what it is told or refuses",
     "For every sequence of creator calls, each call either is valid in the current state and has exactly its described effect on the object under construction, or throws and leaves the creator usable in the state it had. "
     "The finished object contains exactly the values supplied, values outside the range of the C++ type of the target field or of an inconvertible type are refused, and field type queries answer for the current position.",
     ["histories", "inputs"], "random valid and invalid call sequences over the creator test types, with values of all types",
     "Tests follow a few scripted sequences; state machine errors need particular interleavings of nested begin/end and failing calls.",
     ["ZserioTreeCreator.h", "ZserioTreeCreator.cpp", "ReflectableData.h"],
     [("creator state stack", S+"ZserioTreeCreator.cpp")],
     ["outcome of each call and final object against a reference state machine"])

prop("C22", "Bit buffers expose exactly their bits",
     "A bit buffer of any bit size, built from any bytes by any constructor, copied, moved or assigned, holds exactly its first bit-size bits: its bytes and data start with them, and sizes, comparison (the lexicographical order of the bits), hash and serialized form are determined by those bits only, whatever the unused bits of the last byte; a moved-from buffer stays valid. "
     "A bit size larger than the supplied data is rejected for every size up to the maximum.",
     ["inputs", "histories"], "bit sizes 0..thousands and near the type's maximum, all unused-bit patterns, all constructors, polymorphic allocators",
     "Tests use two or three fixed sizes.",
     ["BitBuffer.h", "HashCodeUtil.h"],
     [("masked last byte in comparison and hash", S+"BitBuffer.h")],
     ["observers against a vector of bits model"])

prop("C23", "SQLite helpers store, fetch and validate faithfully",
     "Any value bound to a statement through the helpers (integers of every width, floats other than NaN, booleans, strings with any characters, enums, bitmasks, objects stored as blobs, absent optionals) is fetched back equal from any column, and absent stays distinguishable from empty. "
     "The connection reports every database error as an exception, starts and commits transactions exactly as asked, releases every statement it creates for itself and every connection it owns, and table schema validation reports exactly the actual columns.",
     ["inputs", "histories", "fault_sequences"], "random values per column type, random transaction histories, failing statements, schemas of varying columns",
     "Tests store a few values and never use hostile strings, empty blobs or error histories.",
     ["SqliteConnection.h", "SqliteUtil.h", "SqliteException.cpp", "SqliteFinalizer.h", "ValidationSqliteUtil.h"],
     [("bind/read column overloads", S+"SqliteUtil.h"), ("transaction nesting flag", S+"SqliteConnection.h")],
     ["rows fetched by plain SQLite calls and by the helpers"])

prop("C24", "Numbers convert to text exactly and error messages are complete",
     "Every integer value of every type converts to its exact decimal text, booleans to true or false, floating point values in messages to their single precision value cut to three digits after the point (values beyond 64 bits as +Inf or -Inf), and names of enumerators and bitmask values convert to text and back. "
     "Exception messages built by appending any mix of text, numbers, enums and bitmasks contain exactly the appended pieces, truncated only at the documented capacity, without writing outside the message buffer.",
     ["inputs", "histories"], "all 8/16-bit integers, boundary-dense wider ones, random appends up to and over the capacity",
     "Tests convert a handful of values and one overlong message.",
     ["StringConvertUtil.h", "CppRuntimeException.cpp", "CppRuntimeException.h", "Enums.h", "Bitmasks.h"],
     [("digit-pair conversion", S+"StringConvertUtil.h"), ("bounded append", S+"CppRuntimeException.cpp")],
     ["text against an independent conversion"])

prop("C25", "File helpers transfer exactly the buffer or report failure",
     "Writing a bit buffer or serialised object to a file and reading it back gives the same bytes with the byte-rounded bit size, for every size including empty, and an existing file is replaced completely. "
     "Every failure - missing path, directory, full device, unreadable file - is reported as the runtime's exception, never as silent success (also read, write and close errors), and file names that are not zero-terminated views are honoured exactly.",
     ["inputs", "fault_sequences"], "buffer sizes 0..hundreds of KiB, unaligned bit sizes, failing devices and paths inside a scratch directory",
     "Tests write one small file and open one missing file; device errors surface only when data is flushed.",
     ["FileUtil.cpp", "FileUtil.h", "SerializeUtil.h", "DebugStringUtil.h"],
     [("stream state checks", S+"FileUtil.cpp")],
     ["file content read by plain system calls; exception outcome"])

prop("C26", "Concurrent use of const and independent objects is race free",
     "Threads that only read shared objects, views, buffers and type information (compare, hash, serialise, measure, reflect, walk, write JSON), or that work on their own objects, never race, and each obtains the result that single-threaded execution would give. "
     "Serialising an object with offset fields through a plain view updates those fields and is not such a read; through a data view it is. "
     "This includes the lazily encoded data of introspectable service data and first use of lazily initialised type information from many threads at once.",
     ["schedules"], "many threads x mixed read-only operations x first-use races, over all test types",
     "The tests are single threaded.",
     ["TypeInfo.h", "IntrospectableView.h", "View.h", "JsonEncoder.cpp", "HashCodeUtil.h", "ReflectableData.h", "IService.h"],
     [("function-local static type info", S+"TypeInfo.h"), ("const operations without hidden mutation", S+"View.h")],
     ["ThreadSanitizer reports; per-thread results against the sequential result"])

prop("C27", "Memory comes only from the given allocator and is always returned",
     "When an object, array, holder, bit buffer, reflection, JSON reader or deserialisation is given an allocator, all memory it needs is obtained from that allocator and given back to it with the same size and alignment, and nothing is taken from the default resource. "
     "Copy, move, swap and assignment between containers with different allocators follow the propagation rules of the allocator in use and never return memory to a resource that did not provide it.",
     ["inputs", "histories", "configurations"], "random objects and operation histories with tracking polymorphic and propagating polymorphic resources, several resources at once",
     "Tests check one or two allocations with a counting allocator; mismatched deallocation needs copies and moves between resources.",
     ["AllocatorHolder.h", "RebindAlloc.h", "UniquePtr.h", "Any.h", "Optional.h", "Variant.h", "BitBuffer.h", "ppmr/PropagatingPolymorphicAllocator.h", "SerializeUtil.h", "JsonReader.h", "ReflectableData.h"],
     [("allocator propagation", S+"AllocatorHolder.h"), ("propagating polymorphic allocator", S+"ppmr/PropagatingPolymorphicAllocator.h")],
     ["allocation log of tracking resources and of the default resource"])

prop("C28", "Failed allocations leave objects valid and leak nothing",
     "If an allocation fails at any point of constructing, copying, assigning, serialising, deserialising, reflecting, or JSON reading and writing, the exception propagates, nothing is leaked or destroyed twice, and all objects involved remain valid: they can be inspected, reassigned and destroyed. "
     "Repeating the operation with memory available gives the normal result.",
     ["fault_sequences"], "failure of the k-th allocation for every k of each operation on random objects of all test types",
     "No test injects allocation failures.",
     ["Any.h", "Optional.h", "Variant.h", "UniquePtr.h", "BitBuffer.h", "SerializeUtil.h", "JsonReader.h", "ReflectableData.h", "ArrayView.h"],
     [("exception-safe holder construction", S+"UniquePtr.h")],
     ["failing memory resource; allocation balance; object state after failure"])

prop("C29", "Extended fields keep old and new data compatible",
     "Data ending before an extended field decodes with that field absent and all other fields intact, data containing it decodes with the field present and its value, and writing reproduces the presence. "
     "Presence, value, assignment, comparison and hashing of an extended field follow its value and presence for every value type, including optional and allocator-aware ones.",
     ["inputs", "histories"], "element types x presence x operation histories x trailing data lengths",
     "Tests check the wrapper with one value per constructor.",
     ["Extended.h", "View.h", "BitStreamReader.cpp"],
     [("presence flag with value", S+"Extended.h")],
     ["wrapper state against a model; deserialisation of truncated and full encodings"])

prop("C30", "Span views designate exactly the elements they were given",
     "A span built from a pointer and length, array, standard container or another span, of static or dynamic extent, and every first, last and subspan derived from it, designates exactly the intended elements: iteration forward and backward, indexing, front, back, sizes and byte sizes agree, and writes go to those elements only.",
     ["inputs"], "sizes 0..64 x static/dynamic extents x all derivations x const and non-const elements",
     "Tests derive a few fixed subspans.",
     ["Span.h"],
     [("extent storage and derivation", S+"Span.h")],
     ["addresses and elements exposed by the span"])

prop("C31", "Numeric types behave like the values they wrap",
     "Every numeric type of the runtime - fixed width, dynamic width, variable length integers, floats and bool - converts to and from its C++ value unchanged, and its increments, decrements, compound assignments and comparisons give what the same operation on plain C++ values of its value type gives, each compound operation returning the object itself. "
     "The bounds of a bit field of every length 1 to 64 are exact, the limits of floating point types are the largest and the smallest positive normal value, bit field lengths outside 1 to 64 are refused, aligning a position gives the smallest multiple not below it, and conversions between size types are exact or refused.",
     ["inputs", "histories"], "random histories of operators over all numeric types with boundary-dense operands; all bit field lengths",
     "Tests apply each operator once to small numbers.",
     ["Types.h", "BitFieldUtil.cpp", "BitPositionUtil.h", "SizeConvertUtil.cpp"],
     [("operators of the numeric wrapper", S+"Types.h"), ("bounds of bit fields", S+"BitFieldUtil.cpp")],
     ["values after each operation against exact arithmetic"])

prop("C32", "Service data deliver exactly the encoded object",
     "Service data made from an object give its serialised bytes on every call, with a stable location while unchanged, and an introspectable of exactly that object when the kind provides one; raw service data give the bytes they hold or view. "
     "Every service data object stays independent: changing or destroying the source object, or copying, moving and assigning service data and destroying the original, never changes or invalidates what another delivers. "
     "An object that cannot be serialised is reported by an exception every time, and requests and answers pass through services and clients unchanged.",
     ["inputs", "histories"], "random objects of the generated types x histories of copies, moves, assignments and destruction x all kinds of service data",
     "Tests construct each kind once and read it.",
     ["IService.h", "SerializeUtil.h", "IntrospectableView.h", "ServiceException.cpp"],
     [("lazy data of introspectable service data", S+"IService.h"), ("raw data holder and view", S+"IService.h")],
     ["bytes and introspectables of every live service data object after each operation"])

# not claimed: needs the code generator
prop("C33", "Enumerations, bitmasks and built-in operators compute their schema meaning",
     "For an enumeration of any underlying type, item name, raw value and ordinal lead to each other without loss for every item, and every other name or raw value is refused with the runtime's exception, also when it comes from a bit stream. "
     "Enumerations and bitmasks are measured, written, read and packed exactly as the values of their underlying type; bitmask values outside the underlying type are refused by validation, and bitmask operators act bit by bit. "
     "The built-in operator isset holds exactly when every bit of the mask is set, valueof gives the raw value, and numbits(n) is the smallest width (at least 1 when n > 0, and 0 for 0) whose codes distinguish n values, for every 64-bit n.",
     ["inputs"], "all items, names and raw values (exhaustive for 8-bit types, boundary-dense for others) of enumerations and bitmasks of all kinds of underlying types; both sides of every power of two for numbits",
     "The tests use a handful of items of narrow types and few values of numbits, and never names or raw values which nearly match an item.",
     ["Enums.h", "Bitmasks.h", "BuiltInOperators.h", "BuiltInOperators.cpp"],
     [("item lookup by name and stream functions of enumerations", S+"Enums.h"), ("stream functions of bitmasks", S+"Bitmasks.h"), ("numbits, isset, valueof", S+"BuiltInOperators.h")],
     ["results and exceptions of the conversions and operators", "bits written for enumerations, bitmasks and their raw values"])

prop("C90", "Generated code implements its schema for every valid schema",
     "For every schema the zserio compiler accepts, the generated C++17 sources compile and their data, view, reflection and SQL table classes encode, decode, validate, compare and walk according to the schema.",
     ["programs"], "all schemas, generator options and top-level packages",
     "The integration tests generate code for a fixed set of schemas.",
     ["extension/freemarker/Structure.cpp.ftl", "extension/freemarker/SqlTable.cpp.ftl"],
     [("FreeMarker templates driven by emitters", "extension/freemarker")], ["generated sources"])
prop("C91", "Code generation is deterministic and respects its options",
     "Generating twice from the same schema and options produces identical files, each option changes only what it documents, and sources are not rewritten when nothing changed.",
     ["programs", "configurations"], "all schemas and option combinations",
     "Tests run each option on a fixed schema.",
     ["extension/freemarker/Enumeration.cpp.ftl", "extension/freemarker/Structure.h.ftl"],
     [("emitters and option handling", "extension")], ["generated file trees"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    n = p["statement"].count(". ") + 1
    assert n <= 3, p["id"]
    for fn in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print("missing", p["id"], fn)
print(len(P), "properties")
