"""Configuration of the checks: sources in /verif/harness, what is built from /repo, what evidence means."""

# uses which did not compile once: judged alone when a harness does not build
PROBES_C05 = {
    "offsets-of-bit-buffer": """
#include "zserio/ArrayView.h"
zserio::BitSize f(zserio::BitBufferView b)
{
#ifdef USE
    return zserio::detail::initializeOffsets(b, zserio::BitSize(1));
#else
    return zserio::detail::bitSizeOf(b, zserio::BitSize(1));
#endif
}""",
    "offsets-of-dynamic-bit-field": """
#include "zserio/ArrayView.h"
using V = zserio::View<zserio::DynUInt16>;
zserio::BitSize f(V v, zserio::detail::DeltaContext& c)
{
#ifdef USE
    return zserio::detail::initializeOffsets(v, zserio::BitSize(1)) + zserio::detail::initializeOffsets(c, v, zserio::BitSize(1));
#else
    return zserio::detail::bitSizeOf(v, zserio::BitSize(1)) + zserio::detail::bitSizeOf(c, v, zserio::BitSize(1));
#endif
}""",
    "float-with-packing-context": """
#include "zserio/ArrayView.h"
void f(zserio::detail::DeltaContext& c, zserio::BitStreamWriter& w, zserio::Float32 v)
{
#ifdef USE
    zserio::detail::write(c, w, v);
#else
    zserio::detail::write(w, v);
#endif
}""",
}
PROBES_C06 = {
    "iterator-member-access": """
#include "zserio/ArrayView.h"
uint8_t f(const zserio::ArrayView<const zserio::UInt8>& a)
{
#ifdef USE
    return a.begin()->operator uint8_t();
#else
    return (*a.begin()).operator uint8_t();
#endif
}""",
    "offsets-of-dynamic-bit-field": PROBES_C05["offsets-of-dynamic-bit-field"],
}

CHECKS = {
    "C01": {
        "src": ["c01.cpp"],
        "variants": ["", "32"],
        "title": "round trip",
        "technique": "ASan/UBSan build + bit-vector reference model monitoring random call histories",
        "rule": "a case is a seeded history of writer calls (kinds, widths, values, alignments, start offset), then "
                "sequential and random-access reads and overwrites; distinct = different operation lists; every history "
                "has at least one value operation",
        "must_observe": ["history.unaligned_write", "history.seek_read", "history.overwrite"],
    },
    "C02": {
        "src": ["c02.cpp"],
        "variants": ["", "32"],
        "technique": "ASan/UBSan build + independent reference encoder/decoder compared bit for bit",
        "rule": "a case is one value (kind, width, value, bit offset), written by the runtime and compared with the reference bits, and the "
                "reference bits placed at a random offset and decoded by the runtime; distinct = different (offset, kind, width, value)",
        "must_observe": ["random_values.values", "long_varints.encodings", "typed.dynamic"],
    },
    "C03": {
        "src": ["c03.cpp"],
        "technique": "ASan/UBSan on exactly sized buffers + accept/reject model and bit-level buffer comparison",
        "rule": "cases are (width,value) pairs around every limit, call histories near the end of exactly sized buffers, constructor sizes and huge "
                "lengths; distinct = different values or histories",
        "must_observe": ["width_limits.rejected", "varint_limits.rejected", "capacity_histories.write_refused", "capacity_histories.seek_rejected"],
    },
    "C04": {
        "fast_build": True,
        "src": ["c04.cpp"],
        "variants": ["", "32"],
        "technique": "ASan/UBSan on exactly sized heap buffers + bit-level reference reader over hostile call histories",
        "rule": "a case is a random buffer with a random bit size and a history of reads, alignments, seeks and invalid calls continuing after errors; "
                "distinct = different (buffer, calls)",
        "must_observe": ["hostile_histories.read_ok", "hostile_histories.read_eos", "hostile_histories.read_range", "forged_lengths.refused"],
    },
    "C06": {
        "probes": PROBES_C06,
        "fast_build": True,
        "src": ["c06.cpp", "c06_t1.cpp", "c06_t2.cpp", "c06_t3.cpp", "c06_t4.cpp"],
        "objects": ["std:Creator*", "std:Reflectable*"],
        "technique": "ASan/UBSan build + independent reference encoding of arrays compared bit for bit, element access model",
        "rule": "a case is one element type (64 of them, chosen by the case index) with a random sequence, written and read as every array kind at random "
                "start positions; distinct = different (type, kind, start, sequence) with at least two elements",
        "must_observe": ["arrays.arrays", "arrays.implicit", "arrays.wrong_length", "huge_length.refused"],
    },
    "C07": {
        "fast_build": True,
        "src": ["c07.cpp", "c07_t1.cpp", "c07_t2.cpp", "c07_t3.cpp", "c07_t4.cpp"],
        "objects": ["std:Creator*", "std:Reflectable*"],
        "technique": "ASan/UBSan build + independent reference delta encoder (packing decision, descriptor, deltas) compared bit for bit",
        "rule": "a case is one packable element type with random sequences of delta shapes, or a sweep of deltas +-2^k, +-2^k+-1 for every k; distinct = "
                "different (type, kind, start, sequence) with at least two elements",
        "must_observe": ["packed.columns_packed", "packed.columns_raw", "edges.columns_packed", "edges.columns_raw", "edges.longer_than_16_bits", "edges.max_bits_62", "edges.max_bits_64"],
    },
    "C05": {
        "probes": PROBES_C05,
        "fast_build": True,
        "src": ["c05.cpp", "c05_t1.cpp", "c05_t2.cpp", "c05_t3.cpp", "c05_t4.cpp"],
        "objects": ["std:*", "ppmr:*"],
        "technique": "ASan/UBSan build + comparison of predicted size, offsets, measuring writer, exactly sized writer and reference encoding",
        "rule": "a case is a random sequence of one element type measured and written as every array kind, or a random generated object at ten start positions; "
                "distinct = different (type, position, values)",
        "must_observe": ["arrays.elements", "arrays.arrays", "arrays.packed_arrays", "arrays.offsets", "arrays.unpackable_elements", "generated_objects.objects", "offsets.objects"],
    },
    "C10": {
        "fast_build": True,
        "src": ["c10.cpp", "c10_objs.cpp", "c10_std.cpp", "c10_pmr.cpp", "c10_ppmr.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "technique": "ASan/UBSan build + reference encoding and field-by-field value tree compared at every serialisation entry point",
        "rule": "a case is a random value tree of one of 15 generated types, built, serialised and deserialised by every entry point in three allocator "
                "configurations; distinct = different value trees",
        "must_observe": ["entry_points.objects", "entry_points.files", "entry_points.deserializations", "used_object.objects",
                         "offset_objects.objects", "offset_objects.files", "offset_objects.offsets_read"],
    },
    "C08": {
        "fast_build": True,
        "src": ["c08.cpp"],
        "objects": ["std:*"],
        "technique": "UBSan/ASan build + accept/reject oracle with 128-bit bounds on limits, validation, checked conversion, writing and serialisation",
        "rule": "a case is one numeric type or dynamic width with boundary-dense values (8-bit types exhaustively), or a random object with one field, selector, "
                "union or optional made invalid (or left valid); distinct = different types/widths/objects",
        "must_observe": ["fixed.rejected", "fixed.accepted", "dynamic.rejected", "varints.rejected", "enums.rejected", "objects.rejected", "objects.accepted",
                         "arrays.rejected"],
    },
    "C11": {
        "fast_build": True,
        "src": ["c11.cpp", "c11_limit.cpp", "c11_std.cpp", "c11_ppmr.cpp", "c11_t1.cpp", "c11_t2.cpp", "c11_t3.cpp", "c11_t4.cpp"],
        "objects": ["std:*", "ppmr:*"],
        "technique": "ASan/UBSan/leak build fed with random, mutated and truncated encodings; independent decoder decides acceptance, "
                     "value and end position; allocation monitor",
        "rule": "a case is one bit string (random, mutated or truncated encoding) read as one of 15 generated types in two allocator configurations, or as "
                "an array of one of 64 element types; distinct = different (bits, type)",
        "must_observe": ["random_bits.accepted", "random_bits.reject_end", "mutated.reject_enum", "mutated.reject_union", "mutated.reject_varsize",
                         "mutated.reserialized", "truncated.cuts", "arrays.accepted", "arrays.rejected", "arrays.reserialized", "limits.reads", "limits.file_reads"],
    },
    "C12": {
        "fast_build": True,
        "src": ["c12.cpp"],
        "technique": "ASan/UBSan/leak build + registry of live elements, tracking memory resources and reference model over random operation histories "
                     "with planned exceptions",
        "rule": "a case is a history of up to 50 operations on three optionals (4 element types x 3 allocators) with exceptions planned in a quarter of the "
                "operations, or assignments between a recursive optional and its parts; distinct = different operation lists",
        "must_observe": ["histories.planned_exceptions", "histories.empty_accesses", "histories.self_copy_assign", "histories.self_move_assign",
                         "histories.assign_own_value", "histories.convert_move_assign", "histories.allocations", "parts.operations"],
    },
    "C13": {
        "fast_build": True,
        "src": ["c13.cpp"],
        "technique": "ASan/UBSan/leak build + registry of live elements, tracking memory resources and reference model over random operation histories "
                     "with planned exceptions",
        "rule": "a case is a history of up to 50 operations on three variants of seven alternatives (2 index types x 3 allocators) with exceptions planned in "
                "a quarter of the operations, or an assignment between a recursive variant and its parts; distinct = different operation lists",
        "must_observe": ["histories.planned_exceptions", "histories.self_copy_assign", "histories.self_move_assign", "histories.valueless",
                         "histories.comparisons", "histories.swap", "histories.allocations", "parts.operations"],
    },
    "C14": {
        "fast_build": True,
        "src": ["c14.cpp"],
        "technique": "ASan/UBSan/leak build + registry of live elements, tracking memory resources and reference model over random operation histories "
                     "with planned exceptions",
        "rule": "a case is a history of up to 50 operations on three holders with eight value types (3 allocators) with exceptions planned in a quarter of "
                "the operations, or an assignment between a holder and its parts; distinct = different operation lists",
        "must_observe": ["histories.planned_exceptions", "histories.self_copy_assign", "histories.self_move_assign", "histories.swap_unequal_allocators",
                         "histories.emplace", "histories.allocations", "parts.operations"],
    },
    "C21": {
        "fast_build": True,
        "src": ["c21.cpp", "c21_types.cpp", "c21_std.cpp", "c21_pmr.cpp", "c21_ppmr.cpp", "c21_std_all.cpp", "c21_ppmr_all.cpp", "allobj_std_c.cpp", "allobj_std_m.cpp", "allobj_std_u.cpp",
                "allobj_ppmr_c.cpp", "allobj_ppmr_m.cpp", "allobj_ppmr_u.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "technique": "ASan/UBSan build + reference state machine and a model object changed directly next to every history of creator calls, with values of all "
                     "C++ types, and with failing allocations inside the calls",
        "rule": "a case is 1 to 3 objects built by one creator with random valid and refused calls for one of 15 generated types or the all-types object; "
                "distinct = different finished objects",
        "must_observe": ["trees_std.refused", "trees_std.field_types", "trees_std.element_types", "trees_std.converted", "trees_std.not_convertible", "trees_std.own_values",
                         "trees_std.compound_elements", "trees_std.nulls", "trees_std.arrays", "trees_std.compounds", "trees_std.elements", "trees_std.abandoned",
                         "faults_pmr.failed_allocations", "all_types_std.results", "all_types_ppmr.results", "trees_ppmr.results", "trees_pmr.results",
                         "type_infos.mask_texts", "type_infos.enum_texts", "type_infos.refused_texts", "type_infos.numbers", "type_infos.refused_numbers"],
    },
    "C22": {
        "fast_build": True,
        "src": ["c22.cpp"],
        "technique": "ASan/UBSan build + explicit bit strings as reference model over random operation histories, tracking memory resources",
        "rule": "a case is a history of up to 40 operations (all constructors, copies, moves, assignments, writes, refused sizes, serialisation) on four bit "
                "buffers (3 allocators), or all pairs of short buffers; distinct = different operation lists",
        "must_observe": ["histories.refused", "histories.moves", "histories.equal_pairs", "histories.different_pairs", "histories.neighbours",
                         "histories.in_place_writes", "histories.serialized", "short_pairs.rows"],
    },
    "C26": {
        "flavor": "tsan",
        "fast_build": True,
        "src": ["c26.cpp", "c26_std.cpp", "c26_ppmr.cpp"],
        "objects": ["std:*", "ppmr:*"],
        "technique": "ThreadSanitizer build + fresh process per case with 8 threads executing reading operations on shared values (in step and shuffled), results "
                     "compared among threads and with a run alone",
        "rule": "a case is one process: operations on objects of one generated type (or the type information, the runtime, everything), first use racing; distinct = "
                "different orders of begin and end of the executions",
        "must_observe": [s + ".overlapping_pairs_of_the_same_operation" for s in ("first_use", "shared_values", "type_information", "runtime", "everything")],
    },
    "C32": {
        "fast_build": True,
        "src": ["c32_std.cpp", "c32_pmr.cpp", "c32_ppmr.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "technique": "ASan/UBSan build + random histories of copies, moves and assignments of service data next to the objects they stand for; independent encoding of the "
                     "data, introspectables compared with those of fresh objects, a service and a client in one process",
        "rule": "a case is a history of up to 10 (24) operations on two or three service data of one generated type, or all kinds of service data of one object; "
                "distinct = different histories or encodings",
        "must_observe": ["histories_%s.%s" % (a, k) for a in ("std", "pmr", "ppmr") for k in ("copied", "moved", "assigned", "move_assigned", "contents")] +
                        ["others_%s.calls" % a for a in ("std", "pmr", "ppmr")] + ["failures_%s.refused" % a for a in ("std", "pmr", "ppmr")],
    },
    "C27": {
        "fast_build": True,
        "src": ["c27_pmr.cpp", "c27_ppmr.cpp"],
        "objects": ["pmr:*", "ppmr:*"],
        "libs": "-lsqlite3",
        "technique": "ASan/UBSan build + allocation monitors: tracking memory resources (given, other, default) which check what is returned to them, and a count of heap "
                     "allocations made meanwhile, over single operations and histories of objects in different resources whose contents follow a model",
        "rule": "a case is one random object put through every operation, a history of 4-13 copies, moves, assignments, readings and destructions of 4 objects in 3 resources, "
                "or the columns of one table; distinct = different objects and steps",
        "must_observe": ["allocator.counts", "allocator.huge_counts", "allocator.constructed"] + ["operations_%s.operations" % a for a in ("pmr", "ppmr")] + ["database_%s.operations" % a for a in ("pmr", "ppmr")] +
                        ["histories_%s.step_%s" % (a, k) for a in ("pmr", "ppmr")
                         for k in ("copy construction", "move construction", "copy construction with an allocator", "move construction with an allocator",
                                   "copy assignment", "move assignment", "reading", "destruction")],
    },
    "C28": {
        "fast_build": True,
        "src": ["c28_pmr.cpp", "c28_ppmr.cpp"],
        "objects": ["pmr:*", "ppmr:*"],
        "libs": "-lsqlite3",
        "technique": "ASan/UBSan build + fault injection: the k-th (or each from the k-th) allocation of an operation fails for k = 1, 2, ... until the operation succeeds, with monitors of "
                     "reported failures, blocks left allocated, unchanged sources, and use, assignment and destruction of everything that lived through the failure",
        "rule": "a case is one random object put through every operation with every allocation failing; distinct = different operations, objects and numbers of allocations",
        "must_observe": ["failures_%s.%s" % (a, k) for a in ("pmr", "ppmr") for k in ("failures", "operations", "operations_with_memory", "no_memory_at_all", "single_failures")],
    },
    "C33": {
        "fast_build": True,
        "src": ["c33.cpp"],
        "objects": ["std:Creator*", "std:Reflectable*", "std:Walker*"],
        "technique": "ASan/UBSan build + model of the items: names, values and ordinals of enumerations of 22 underlying types for all 8 bit raw values and boundary-dense wider "
                     "ones, streams and packed sequences compared with those of the underlying type, bit by bit model of bitmask operators, isset and numbits",
        "rule": "a case is one enumeration or bitmask type with random names, values and sequences, or a range of numbers of values; distinct = different type and case",
        "must_observe": ["enums.names_refused", "enums.names_found", "enums.values_refused", "enums.values_found", "enums.streamed", "enums.packed_sequences", "masks.set",
                         "masks.not_set", "masks.masks_refused", "masks.masks_valid", "masks.operators", "masks.packed_sequences", "numbits.widths"],
    },
    "C31": {
        "fast_build": True,
        "src": ["c31.cpp"],
        "technique": "ASan/UBSan build + random histories of operators on every numeric type next to exact 128-bit arithmetic and plain C++ values; bounds, alignment and "
                     "size conversion against their definitions",
        "rule": "a case is one history of up to 14 (30) operations for each type, all bit field lengths, or a position with an alignment; distinct = different histories",
        "must_observe": ["fixed.steps", "fixed.comparisons", "others.steps", "others.comparisons", "bit_fields.bounds", "bit_fields.refused", "positions.moved",
                         "positions.sizes_refused"],
    },
    "C30": {
        "fast_build": True,
        "src": ["c30.cpp"],
        "technique": "ASan/UBSan build + comparison of every accessor with the addresses of the underlying elements and a shadow copy",
        "rule": "a case is one element type with a random vector, pointer ranges and arrays and all parts derived from them (static and dynamic, nested); "
                "distinct = different (type, size, range)",
        "must_observe": ["spans.spans", "spans.writes", "spans.arrays"],
    },
    "C29": {
        "fast_build": True,
        "src": ["c29.cpp", "c29_std.cpp", "c29_pmr.cpp", "c29_ppmr.cpp"],
        "technique": "ASan/UBSan build + model of presence and value next to random histories of extended wrappers over 17 value types and 3 allocators (tracked "
                     "lifetimes and memory resources), and structures of 8 schema versions against independently encoded data cut at any bit",
        "rule": "a case is a history of up to 29 (64) operations on four wrappers, or one object written with a prefix of its extended fields and read by every version "
                "complete, padded and cut; distinct = different histories or encodings",
        "must_observe": ["wrappers_%s.%s" % (a, k) for a in ("std", "pmr", "ppmr") for k in
                         ("copied", "moved", "copied_with_allocator", "moved_with_allocator", "from_allocator", "from_value_and_allocator", "assigned",
                          "move_assigned", "swapped", "thrown", "equal_pairs", "different_pairs", "optional_changes")] +
                        ["versions_%s.%s" % (a, k) for a in ("std", "pmr", "ppmr") for k in
                         ("written_without_all", "newer_read", "older_read", "same_read", "truncated_read", "refused", "gaps")],
    },
    "C23": {
        "fast_build": True,
        "src": ["c23.cpp", "c23_std.cpp", "c23_pmr.cpp", "c23_ppmr.cpp", "allobj_std_c.cpp", "allobj_std_m.cpp", "allobj_std_u.cpp",
                "allobj_ppmr_c.cpp", "allobj_ppmr_m.cpp", "allobj_ppmr_u.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "libs": "-lsqlite3",
        "technique": "ASan/UBSan build + rows compared through plain SQLite calls, a model of the committed and visible table next to every history of updates and "
                     "transactions, with interrupts, denials, locks, refused commits and failing memory of SQLite, and monitors of open statements, closed connections and SQLite memory",
        "rule": "a case is one row per column type or object, a history of up to 20 (44) calls of a connection, or up to 3 random tables; distinct = different values, logs or tables",
        "must_observe": ["values_std.fetched", "values_std.absent", "values_std.texts_with_nul", "values_std.empty_texts", "objects_std.objects", "objects_std.truncated",
                         "objects_ppmr.objects", "objects_pmr.objects", "owners.external", "owners.internal", "histories.commits", "histories.rollbacks", "histories.ends_of_others",
                         "histories.refused", "histories.reported", "histories.committed_checks", "memory.memory_failures", "memory.reported", "schemas.columns",
                         "schemas.hidden_columns", "schemas.interrupted"],
    },
    "C24": {
        "src": ["c24.cpp"],
        "objects": ["std:Creator*", "std:Reflectable*", "std:Walker*"],
        "fast_build": True,
        "libs": "-lsqlite3",
        "technique": "ASan/UBSan build + independent decimal conversion and message model (concatenation cut at the capacity) with guarded buffers",
        "rule": "cases are all 8/16-bit integers, boundary-dense 32/64-bit ones and floats, names with near misses, and random append histories on "
                "exceptions including copies and moves; distinct = different values or histories",
        "must_observe": ["wide_ints.values", "floats.digits", "floats.special", "names.names", "names.rejected_names", "names_back.texts",
                         "messages.appended", "messages.truncated", "thrown_messages.thrown"],
    },
    "C25": {
        "src": ["c25.cpp"],
        "objects": ["std:*"],
        "fast_build": True,
        "asan_extra": "max_allocation_size_mb=6000:hard_rss_limit_mb=7000",
        "technique": "ASan/UBSan build + files compared by plain system calls, faults injected into read/write/close, full device, size limits, permissions",
        "rule": "a case is a history of writes of one name (sizes 0..300000 bytes, unaligned bit sizes), one injected fault, a list of unusable paths, one "
                "generated object or one JSON text; distinct = different sizes/contents/faults",
        "must_observe": ["buffers.unaligned", "buffers.empty", "buffers.transfers_disturbed", "faults.write_failed", "faults.read_failed", "faults.close_failed",
                         "faults.size_limits", "paths.unwritable", "paths.unreadable", "objects.objects", "json.json_read"],
    },
    "C17": {
        "src": ["c17.cpp"],
        "objects": ["std:*"],
        "fast_build": True,
        "technique": "ASan/UBSan/leak build + reference tokenizer and event parser, chunk boundaries placed at every byte, damaged texts and streams",
        "rule": "a case is a random, lenient, mutated or arbitrary text parsed plainly and padded to chunk boundaries, one value in an exactly sized buffer, a "
                "deeply nested text, a failing stream, or a sequence of object documents; distinct = different texts",
        "must_observe": ["byte_objects.valid", "byte_objects.invalid", "valid.strictly_valid", "valid.chunk_boundaries", "mutated.undecodable", "mutated.ungrammatical", "boundaries.accepted",
                         "decoder.decoded", "decoder.refused", "nesting.levels", "streams.failed", "reader_sequences.documents",
                         "reader_sequences.reads_after_error", "reader_sequences.reads_at_end", "reader_mutated.accepted", "reader_mutated.refused"],
    },
    "C15": {
        "fast_build": True,
        "src": ["c15.cpp", "c15_laws.cpp", "c15_num1.cpp", "c15_num2.cpp", "c15_std.cpp", "c15_pmr.cpp", "c15_ppmr.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "technique": "ASan/UBSan build + laws of equality, order and hashing checked over all pairs and triples of value pools against a model of each value",
        "rule": "a case is a pool of 7 to 12 values of one type, near-duplicates and equal values built in another way included; distinct = different values",
        "must_observe": ["numeric_a.equal_pairs", "numeric_b.equal_pairs", "numeric_a.optional_pools", "numeric_b.optional_pools", "numeric_a.extended_pools", "numeric_b.extended_pools", "numeric_a.variant_pools", "numeric_b.variant_pools", "numeric_a.array_pools", "numeric_b.array_pools",
                         "sequences.bit_buffer_pools", "sequences.equal_pairs", "objects_std.equal_pairs", "objects_ppmr.hash_pairs_different",
                         "dyn_views.dyn_view_pools", "big_values.pairs"],
    },
    "C18": {
        "fast_build": True,
        "src": ["c18.cpp", "c18_std.cpp", "c18_pmr.cpp", "c18_ppmr.cpp", "c18_std_all.cpp", "c18_ppmr_all.cpp", "allobj_std_c.cpp", "allobj_std_m.cpp", "allobj_std_u.cpp",
                "allobj_ppmr_c.cpp", "allobj_ppmr_m.cpp", "allobj_ppmr_u.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "technique": "ASan/UBSan build + tree of values read directly from the object compared with everything the reflection interface shows, "
                     "and a model changed directly next to every history of changes made through reflection",
        "rule": "a case is a random object of one of 15 generated types or of the all-types object, read by every accessor and path, or a history of up to 8 (20) "
                "valid and invalid changes through reflection; distinct = different objects",
        "must_observe": ["objects_std.parameters", "objects_std.functions", "objects_std.refused_getters", "objects_ppmr.paths", "histories_std.set_field",
                         "histories_std.created", "histories_std.refused_mutations", "histories_std.appended", "histories_std.set_at", "histories_std.resized",
                         "histories_std.owners", "all_types_std.set_field", "leaf_views_std.leaf_views", "floats.different_pairs", "kinds.pairs"],
    },
    "C19": {
        "fast_build": True,
        "src": ["c19.cpp", "c19_std.cpp", "c19_pmr.cpp", "c19_ppmr.cpp", "allobj_std_c.cpp", "allobj_std_m.cpp", "allobj_std_u.cpp",
                "allobj_ppmr_c.cpp", "allobj_ppmr_m.cpp", "allobj_ppmr_u.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "technique": "ASan/UBSan build + recorded walker events, filter calls and handles compared with a reference walk over a tree of values read directly "
                     "from the object, with reference filters which decide from the position of a node alone",
        "rule": "a case is a random object of one of 15 generated types or of the all-types object walked without a filter and with 3 random filters or conjunctions, each "
                "reused up to 3 times; distinct = different sequences of unfiltered events",
        "must_observe": ["walks_std.filter_default", "walks_std.filter_depth", "walks_std.filter_array", "walks_std.filter_regex", "walks_std.filter_random",
                         "walks_std.filter_and", "walks_std.something_walked", "walks_std.nothing_walked", "walks_std.with_filter_calls", "walks_std.observer_threw",
                         "walks_ppmr.filter_regex", "walks_pmr.filter_regex", "walks_std.refusals", "all_types_std.walks"],
    },
    "C20": {
        "fast_build": True,
        "src": ["c20.cpp", "c20_std.cpp", "c20_pmr.cpp", "c20_ppmr.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "technique": "ASan/UBSan build + facts computed from the C++ types, the encodings actually written and the generated objects compared with every answer of the "
                     "type information, hand-made type information with random content, and queries from several threads",
        "rule": "a case is one built-in or generated type with all 20 queries, a random object compared with its type information, or type information made by hand; "
                "distinct = different types, objects or hand-made contents",
        "must_observe": ["builtin_std.builtin_types", "builtin_std.refused", "builtin_std.answered", "generated_std.compounds", "generated_std.enum_items",
                         "generated_std.bitmask_values", "generated_std.enum_unknown", "data_std.data_fields", "made_std.made_kind_0", "made_std.made_kind_5",
                         "made_std.made_kind_8", "concurrent_std.concurrent_rounds", "utilities.utility_tables"],
    },
    "C16": {
        "src": ["c16.cpp", "c16_std.cpp", "c16_pmr.cpp", "c16_ppmr.cpp", "allobj_std_c.cpp", "allobj_std_m.cpp", "allobj_std_u.cpp",
                "allobj_ppmr_c.cpp", "allobj_ppmr_m.cpp", "allobj_ppmr_u.cpp"],
        "objects": ["std:*", "pmr:*", "ppmr:*"],
        "fast_build": True,
        "technique": "ASan/UBSan build + expected JSON tree and exact text computed from the value tree, strict parse, and field-by-field comparison of what is read back",
        "rule": "a case is a random object of one of 15 generated types or of the all-types object for one allocator, written with a random indentation, separators, "
                "enumerable format, stream flags and C/C++ locale, and read back by every entry point; distinct = different objects",
        "must_observe": ["enumerables.unnamed", "objects.texts_written", "objects.texts_read", "objects.files", "objects.cpp_locale_cases", "all_types.all_type_objects",
                         "all_types.fields_with_value", "long_strings.objects"],
    },
    "C09": {
        "src": ["c09.cpp"],
        "technique": "UBSan build + independent arithmetic model of binary16/32/64 (exhaustive half patterns)",
        "rule": "all 65536 half patterns; every single exponent x boundary-dense significands x signs; windows of consecutive single patterns (thorough: all "
                "2^32); random double patterns; distinct = different patterns or window bases",
        "must_observe": ["half_exhaustive.blocks", "single_dense.exponents", "single_range.window_values"],
    },
}

SETUP = "python3 -c \"import sys; sys.exit(0)\""
NOT_APPLICABLE = {
    "C90": "The Java/FreeMarker generator cannot be built offline (zserio core and FreeMarker jars are absent), so no "
           "execution of it can be observed; only its fixed outputs under runtime/test/test_object are exercised.",
    "C91": "Same reason: the generator cannot be executed offline, there is nothing to monitor at run time.",
}
