#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
S = "packed_struct/src/"
C = "packed_struct_codegen/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("P01", "Damaged or foreign bytes never bring a receiver down",
 "Whatever bytes of whatever length a faulty link or store hands over, unpacking any packable type (primitives, bit-limited integers, reserved bits, byte arrays, declared records with nesting and arrays, vectors, tuples) returns: either a value or a packing error. It never panics, overflows, loops or reads outside the bytes it was given, and a receiver that has just rejected a damaged message unpacks the next good one exactly as if the damaged one had never arrived.",
 ["fault_sequences", "inputs", "histories"],
 "every sequence of deliveries in which frames are truncated, extended, spliced, bit-flipped, overwritten with noise or delivered as the wrong type, for every declared layout",
 "Tests unpack a handful of well-formed arrays of the right length; only two unpack anything else. None feeds damaged bytes to the unaligned, multi-byte, enum, LSB or nested paths, or looks at the message after a rejected one.",
 [S+"types_generic.rs", S+"types_vec.rs", S+"types_tuples.rs", S+"types_num.rs", S+"types_basic.rs", C+"pack_codegen.rs"],
 [("length checks before any indexing", S+"types_generic.rs"), ("checked slice access helpers", S+"lib.rs lib_get_slice"), ("generated shift/mask code", C+"pack_codegen.rs pack_bits")],
 ["PackedStruct::unpack", "PackedStructSlice::unpack_from_slice"])

prop("P02", "Damage changes only the fields whose own bits it touched",
 "When stored or transmitted bits of a record are altered (flipped, stuck, torn between an old and a new version), every field none of whose bits were altered unpacks to exactly the value that was sent, and every field that was hit unpacks to what its altered bits denote. Bits that belong to no field, or to a reserved field, can be altered freely without any observable effect, and the record is refused only when a field that was hit holds a value its type does not define.",
 ["fault_sequences", "schedules", "inputs", "configurations"],
 "every declared layout, every value, every set of altered bits, and every interleaving of a multi-step register read with the device's updates",
 "Tests round-trip undamaged records with a few layouts; cross-talk between neighbouring fields, reserved bits or gaps only shows for particular bit offsets, widths and damaged bits, which no test varies.",
 [C+"pack_codegen.rs", C+"pack_parse.rs", S+"types_num.rs", S+"types_reserved.rs"],
 [("per-field bit masks and shifts in generated code", C+"pack_codegen.rs pack_bits"), ("reserved bits ignore their input", S+"types_reserved.rs unpack"), ("value masks and sign extension", S+"types_num.rs from_primitive")],
 ["values of unpacked fields versus the altered bits"])

prop("P03", "A buffer of the wrong length is always refused, with the true sizes",
 "A type with a fixed packed size accepts, for packing and unpacking, exactly buffers of the size it advertises; any truncated, extended or merged delivery is refused with an error stating the required and the received size. A vector is refused when the delivery is not a whole number of elements (stating the received size and the element size), a tuple when what is left after its fixed parts does not fit its one variable part or when it has two variable parts, and packing into a buffer of another size than the value needs is refused before a byte of it is changed.",
 ["fault_sequences", "inputs", "configurations"],
 "every packable type and composition, every value, and every truncation, extension or merge of deliveries",
 "One test feeds a short buffer to one tuple and only checks that some error comes back; no test checks the reported sizes, oversized buffers, vectors of multi-byte elements, or the output buffer after a refusal.",
 [S+"types_generic.rs", S+"types_vec.rs", S+"types_tuples.rs", S+"packing.rs"],
 [("size comparison in slice packing", S+"types_generic.rs"), ("modulo check", S+"types_vec.rs"), ("length builder", S+"types_tuples.rs StructLengthBuilder")],
 ["PackedStructSlice::{pack_to_slice, unpack_from_slice, packed_bytes_size, pack_to_vec}"])

prop("P04", "Undefined enum and bool values are refused, or kept verbatim if so declared",
 "When damage or a newer peer puts into an enum field a number that names no declared variant (or into a multi-bit bool field anything but 0 or 1), unpacking refuses the whole record as an invalid value; it never yields another variant. An enum field declared with the catch-all wrapper accepts every number its bits can hold, tells declared variants and unknown numbers apart correctly, and packs the same number again.",
 ["fault_sequences", "inputs", "configurations", "programs"],
 "every enum (backing type, signedness, gaps, implicit and negative discriminants), every field width and position, every damaged or newer-version value, scalar fields and arrays",
 "Tests unpack one catch-all value and convert a few discriminants by hand; none unpacks a record whose enum field holds an undefined number.",
 [C+"primitive_enum.rs", C+"pack_codegen.rs", S+"primitive_enum.rs", S+"types_basic.rs"],
 [("from_primitive match with None fallback", C+"primitive_enum.rs"), ("InvalidValue on None", C+"pack_codegen.rs unpack_field"), ("EnumCatchAll", S+"primitive_enum.rs")],
 ["result of unpack", "EnumCatchAll::to_primitive after unpack and re-pack"])

prop("P05", "Relaying a record hop by hop preserves it and restores its fixed bits",
 "A node that unpacks a received record and packs it again emits every bit owned by an ordinary field exactly as received, reserved bits at their declared constant, and bits owned by no field as zero, even if these were damaged on the way in. Hence any number of further fault-free hops changes nothing, for records on their own and as elements of vectors, tuples, arrays and nested records.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "every declared layout, every received image that unpacks, every chain of relays with damage on its links",
 "Round-trip tests start from a value, never from bytes, so leftovers in gaps and reserved bits, over-wide integers and asymmetric pack/unpack shifts are invisible to them.",
 [C+"pack_codegen.rs", S+"types_num.rs", S+"types_reserved.rs", S+"types_array.rs", S+"types_vec.rs", S+"types_tuples.rs"],
 [("symmetrical generated pack and unpack code", C+"pack_codegen.rs pack_bits"), ("zero-initialised target", C+"pack_codegen.rs derive_pack"), ("constant reserved bytes", S+"types_reserved.rs pack")],
 ["bytes emitted by pack after unpack of received bytes"])

prop("P06", "Peers on a lossy network agree on every message that arrives intact",
 "Whatever messages are lost, duplicated, reordered or interleaved, and whichever nodes crash and restart in between, a message that arrives undamaged unpacks to exactly the values that were sent, and packing those values gives exactly the bytes the declared layout prescribes, so that a peer that implements the documented layout independently (bit positions, bit numbering, byte order, partial-byte integers, sign) always interoperates. The outcome depends on that message's bytes alone, not on what was handled before it.",
 ["histories", "schedules", "fault_sequences", "configurations", "inputs"],
 "every declared layout and value, every order, multiplicity and interleaving of messages, every crash and restart of a node",
 "Tests compare about ten hand-picked images and round-trip others in isolation; almost no (width, offset, byte order, sign) combination is compared with an independent encoding, and every test handles one record in a fresh process.",
 [C+"pack_codegen.rs", C+"pack_parse.rs", C+"pack_parse_attributes.rs", S+"types_num.rs", S+"types_bits.rs"],
 [("field positioning", C+"pack_parse.rs"), ("shift and mask generation", C+"pack_codegen.rs pack_bits"), ("MSB and LSB integer packing", S+"types_num.rs")],
 ["wire images and unpacked values at both ends"])

prop("P07", "The first failing component aborts the operation and its error is reported",
 "Packing, unpacking or sizing a composite (declared record, array, vector, tuple, any nesting of these) whose components can themselves fail succeeds only if every component succeeds. Otherwise it returns exactly the error raised by the first component that failed, unchanged (an enum conversion that yields nothing is reported as an invalid value), and no further component is packed or unpacked after the failure.",
 ["fault_sequences", "programs", "inputs"],
 "every composite shape, every component position, every operation, every error kind a component may raise, one or several failing components",
 "No test has a component that fails; every nested value in the tests packs and unpacks successfully.",
 [C+"pack_codegen.rs", S+"types_vec.rs", S+"types_tuples.rs", S+"types_generic.rs", S+"types_num.rs", S+"packing.rs"],
 [("error propagation in generated code", C+"pack_codegen.rs"), ("propagation in sequence and tuple code", S+"types_vec.rs, "+S+"types_tuples.rs")],
 ["returned PackingError", "order of calls into user-implemented components"])

prop("P08", "A failed pack never leaves a torn record in the caller's buffer",
 "If packing into a caller's buffer fails or a component panics, at whatever point, then the bytes of every fixed-size record in the buffer are either all as before or all the complete new image, never a mixture: a single record that fails leaves the buffer untouched, and in a vector or tuple only whole components ahead of the failing one may have been written. When packing succeeds every byte of the buffer has been set by the value alone, whatever the buffer held before, and unpacking never changes its input.",
 ["fault_sequences", "crash_points", "inputs"],
 "every fixed-size type, vector and tuple shape, every failing component and instant, every prior content of the buffer",
 "Tests pack into fresh arrays and no component ever fails, so stale bytes and partial writes cannot be seen.",
 [S+"types_generic.rs", S+"types_vec.rs", S+"types_tuples.rs", C+"pack_codegen.rs"],
 [("pack to a temporary, then copy", S+"types_generic.rs pack_to_slice"), ("per-component sub-slices", S+"types_tuples.rs, "+S+"types_vec.rs")],
 ["bytes of the caller's buffer after the call, including guard bytes around it"])

prop("P09", "Aborted operations neither leak nor double-drop component values",
 "When unpacking a vector, tuple, array or record stops half-way because a component fails or panics, every component value created so far is dropped exactly once, and when it succeeds the caller receives exactly the values that were created, in order. Packing, sizing and formatting create, drop and duplicate no component value.",
 ["fault_sequences", "crash_points", "programs"],
 "every composite shape, every component position, failure by error or by panic",
 "No test uses component types with ownership or a failing component.",
 [S+"types_vec.rs", S+"types_tuples.rs", C+"pack_codegen.rs"],
 [("owned accumulation in a vector", S+"types_vec.rs unpack_from_slice"), ("tuple and record construction after all components", S+"types_tuples.rs, "+C+"pack_codegen.rs")],
 ["live-instance ledger of a user-implemented component type"])

prop("P10", "Heap exhaustion cannot break fixed-size codecs, nor input inflate heap use",
 "Sizing, packing into a caller's buffer and unpacking a value of fixed size, alone or in a tuple, asks nothing of the heap, so these operations give the same results while every allocation fails; packing a vector or a tuple into a caller's buffer needs no heap either. Unpacking into a vector asks for memory in proportion to the bytes received, and refusing a delivery for its length asks for none.",
 ["fault_sequences", "inputs", "configurations"],
 "every packable type and value, allocation refused at any instant, every delivery length including hostile ones",
 "Tests run with a healthy heap and never observe allocations; the no_std test covers one record and one value.",
 [S+"types_generic.rs", S+"types_num.rs", S+"types_vec.rs", S+"types_tuples.rs", C+"pack_codegen.rs"],
 [("stack-only generated code", C+"pack_codegen.rs"), ("capacity derived from input length", S+"types_vec.rs")],
 ["global allocator calls made during an operation"])

prop("P11", "A failing output sink ends a rendering cleanly; what it got is a true prefix",
 "Rendering a record (its display form, with any choice of sections, and the field table) to a sink that starts refusing output at any instant returns an error, writes nothing further, never panics, and what the sink received is a prefix of the fault-free rendering; with a healthy sink it succeeds. The fault-free rendering shows, in the sections chosen, a header with the record's name and size, exactly the record's packed bytes in decimal, hexadecimal and binary and, for each field, its name and value and, unless some field is wider than 32 bits, its position and own bits; a record that cannot be packed is reported as such, without showing bytes.",
 ["fault_sequences", "inputs", "configurations"],
 "every record layout and value, every choice of sections, every instant and way the sink fails",
 "Tests print three records to a sink that never fails and check nothing about the text.",
 [S+"debug_fmt.rs", C+"pack_codegen_docs.rs"],
 [("propagated write errors", S+"debug_fmt.rs"), ("generated field table", C+"pack_codegen_docs.rs struct_runtime_formatter")],
 ["text received by a simulated fmt::Write sink", "returned fmt::Result"])

prop("P12", "Interleaved, nested and concurrent operations do not influence each other",
 "Any number of pack, unpack, sizing and rendering operations, run on several threads or started from inside one another by user-implemented components and sinks, give under every interleaving exactly the results, errors, call sequences and buffer contents that each gives on its own. None of them waits for another to finish.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of operations at component calls, sink writes and allocations, every nesting, with failing and panicking operations among them",
 "Every test is a single thread handling one value at a time.",
 [S+"types_vec.rs", S+"types_tuples.rs", S+"types_num.rs", S+"types_generic.rs", S+"debug_fmt.rs", C+"pack_codegen.rs"],
 [("no shared mutable state", S+"*.rs, generated code")],
 ["results of operations run under a controlled scheduler versus run alone"])

prop("P13", "A log of packed records recovers its durable records after any crash",
 "Records appended to storage as packed bytes, one by one or in batches, are all recovered, in order and unaltered, after a crash that keeps an arbitrary prefix of what had not been synced: unpacking the remaining bytes as a vector yields exactly the records that are completely there. A torn tail is reported with the received and the element size, never as a record, and after cutting the log at the last whole record recovery succeeds; unpacking a concatenation of logs equals concatenating what each unpacks to.",
 ["crash_points", "fault_sequences", "histories"],
 "every record type, every history of appends, syncs and batches, every crash point including during recovery and append",
 "Tests unpack a vector once, from one complete buffer of single bytes; no test has a torn tail, batches or multi-byte elements.",
 [S+"types_vec.rs", S+"types_tuples.rs", S+"packing.rs", S+"types_generic.rs"],
 [("element count and modulo check", S+"types_vec.rs unpack_from_slice"), ("pack_to_vec", S+"packing.rs")],
 ["records recovered from the simulated disk versus the history of appends"])

prop("P14", "No stored or received bytes can produce an out-of-range value",
 "A bit-limited integer obtained in any way (unpacked from damaged or foreign bytes, restored from a damaged serialized snapshot, converted from a native number) holds a value its width and sign allow and equals the value one gets by converting that native number again; for a number already in range that is the number itself. A snapshot that was completely saved restores to an equal value, whatever short or interrupted reads and writes it went through, and one whose storage failed or was cut reports an error instead of a value.",
 ["fault_sequences", "crash_points", "inputs", "configurations"],
 "every width, sign and byte order, every damaged image and snapshot, every failing, short or interrupted read or write",
 "The serde test only checks that the trait bounds compile; range tests cover 4- and 7-bit signed integers and never start from bytes with excess bits.",
 [S+"types_num.rs", S+"types_reserved.rs", S+"packing.rs"],
 [("mask and sign-extend on every construction", S+"types_num.rs from_primitive"), ("serde through the same conversion", S+"types_num.rs serialize"), ("derived serde of helper types", S+"types_reserved.rs, "+S+"packing.rs")],
 ["native value of every produced integer", "serde Serializer and Deserializer results"])

prop("P15", "A retransmitting transfer over the codec completes exactly once, in order",
 "Two nodes that run a sliding-window transfer whose frames are built from packed headers with bit-limited wrapping counters, a variable payload and a checksum deliver the payload exactly once and in order under any loss, damage, duplication, reordering, delay and receiver restart, and finish within a bounded time after faults stop. No undamaged frame is ever refused and no damaged frame is ever taken for a different valid frame than its bytes spell.",
 ["fault_sequences", "schedules", "crash_points", "histories"],
 "every fault sequence, every interleaving of deliveries, timers and restarts, every header layout of the simulated protocol",
 "No test exchanges messages at all; counters that wrap at their declared width and variable payloads between fixed parts are never exercised together.",
 [S+"types_tuples.rs", S+"types_vec.rs", S+"types_num.rs", C+"pack_codegen.rs", S+"primitive_enum.rs"],
 [("wrapping conversion of counters", S+"types_num.rs from_primitive"), ("one variable part per tuple", S+"types_tuples.rs")],
 ["payload delivered to the receiving application", "simulated completion time"])

prop("P16", "Enum modes survive names, numbers, storage and gateways",
 "For every enum that derives the helper traits: a name received over a text line, however damaged, is taken for a variant exactly if it is that variant's declared name (in the lower-case form: the declared name in lower case), the displayed name is the declared one and is read back as the same variant, and the lists of variants hold every variant once in order of declaration. A number, however it got into storage or onto a link, is taken for a variant exactly if that variant was declared with it, and a variant becomes exactly its declared number, whichever backing type able to hold it was chosen or detected. The catch-all form keeps every undeclared number unaltered, recognises every declared one, passes both on, shows unknown numbers as such and compares by number.",
 ["fault_sequences", "inputs", "programs", "histories"],
 "every enum declaration (any set of numbers, any spelling, implicit or explicit, any backing type), every text, every number, every history of commands, decayed storage and restarts",
 "Five enums with a handful of values are tested; no test parses a damaged name, a negative-and-large mix of numbers or lists the variants of a catch-all enum.",
 [C+"primitive_enum.rs", S+"primitive_enum.rs", S+"types_num.rs"],
 [("generated conversions and detected backing type", C+"primitive_enum.rs derive"), ("discriminant inference", C+"primitive_enum.rs get_unitary_enum"), ("catch-all", S+"primitive_enum.rs EnumCatchAll")],
 ["PrimitiveEnum, display and listing trait methods at the nodes"])

prop("P17", "Numbers passed between nodes of either byte order keep their value",
 "A native or bit-limited integer handed from node to node as bytes, most or least significant byte first, as native bytes, as the bytes of a bit-limited integer or packed, is at every node exactly the number its bytes spell: the same number if the bytes arrived intact, and otherwise one that differs only in the bits that were damaged. The bytes a node sends are the big- or little-endian ones of its number (packed least-significant-first partial widths follow the documented grouping), and conversions in both directions are inverse to each other.",
 ["fault_sequences", "inputs", "configurations"],
 "every native type, width, sign and byte order, every path of conversions, every damage and torn read",
 "Four values of four widths are tested, each converted once.",
 [S+"types_num.rs"],
 [("IntegerAsBytes", S+"types_num.rs integer_as_bytes"), ("SizedInteger byte conversions", S+"types_num.rs integer_bytes_impl"), ("MsbInteger, LsbInteger", S+"types_num.rs")],
 ["bytes emitted and numbers received at each simulated node"])

prop("P18", "Nodes built with std, with alloc only and with neither are interchangeable",
 "The library compiles with the standard library, with alloc alone and with neither, and so does a no_std program that uses its derive macros. However a node's library is built, it gives the same answers: the same values out of the same bytes and the same bytes out of the same values, the same refusal with the same error (and the same text of it) for damaged, foreign or mis-sized deliveries, the same advertised sizes, the same names, numbers and spellings accepted for enums, and, where rendering exists, the same text. Nothing that needs no heap with std needs one without. So nodes of any build can be mixed in one chain, lossy links and restarts included, without anyone noticing.",
 ["configurations", "inputs", "fault_sequences", "histories"],
 "every declaration, value and delivery, intact or damaged, along every chain of nodes of different builds",
 "The test suite is compiled with std only; one example crate packs one value without it, and the configuration with alloc alone did not even compile.",
 [S+"lib.rs", S+"internal_prelude/no_std.rs", S+"internal_prelude/std.rs", S+"primitive_enum.rs", S+"types_tuples.rs", S+"types_vec.rs", S+"debug_fmt.rs", C+"common.rs"],
 [("feature-gated modules and re-exports", S+"lib.rs"), ("preludes per configuration", S+"internal_prelude/"), ("paths and debug code chosen per configuration", C+"common.rs")],
 ["wire images, results, sizes, texts and enum answers of nodes built in each configuration"])

# --- not addressed by this technique --------------------------------------------------
prop("Q01", "Attribute syntax places every field where the documentation says",
 "For every legal spelling of a position attribute (single, open-ended, inclusive and exclusive ranges, in bits or bytes, decimal or hexadecimal, MSB0 or LSB0) the field occupies exactly the documented bits.",
 ["programs"], "every declaration",
 "One unit test covers a dozen spellings (and pins exclusive byte ranges to a result that contradicts the documentation).",
 [C+"pack_parse_attributes.rs", C+"pack_parse.rs"], [("position parser", C+"pack_parse_attributes.rs parse_position_val")], ["generated code"])
prop("Q02", "Ambiguous or impossible declarations are rejected at compile time",
 "Overlapping fields, incomplete LSB0 positions, unsupported types, misplaced attributes and generic records are rejected when the program is compiled, with an error at the offending item, and never silently accepted.",
 ["programs"], "every declaration",
 "There are no compile-fail tests.",
 [C+"pack_parse.rs"], [("overlap check", C+"pack_parse.rs parse_struct")], ["compiler diagnostics"])
prop("Q05", "Generated documentation shows the true layout",
 "The layout table generated into each record's documentation lists every field with the bits it really occupies and the record's real size.",
 ["programs"], "every declaration",
 "No test reads the generated documentation.",
 [C+"pack_codegen_docs.rs"], [("type_docs", C+"pack_codegen_docs.rs")], ["rustdoc output"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
