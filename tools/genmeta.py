#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; not part of any check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BP = "protocol/bin-prot/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None),
                  _t=technique, _n=note, _na=na))


TRUST = " Generated-input search: no claim beyond the generated cases; trusts the independent reference model in harness/src/model.rs and serde."

p("C01", "Typed bin_prot encoding round-trips",
  "Any Rust value whose type derives serialisation, encoded to bin_prot and decoded again as the same type, comes back equal, and the decoder consumes exactly the bytes the encoder produced. A value the format cannot express (a char that needs more than one byte, a sequence of unknown length) is refused with an error rather than written as something else.",
  ["inputs", "programs"], "all supported type shapes (primitives, options, tuples, records, sums, polymorphic variants, sequences, byte strings, nested) and all their values",
  "The unit tests round-trip one or two constants per type; the failures live in particular integers, lengths and nestings.",
  [BP + "ser.rs", BP + "de.rs", BP + "write_ext.rs", BP + "read_ext.rs", BP + "integers/integer.rs", BP + "integers/nat0.rs"],
  [("Serializer for serde types", BP + "ser.rs"), ("Deserializer for serde types", BP + "de.rs")],
  "property-based testing: random types and values, round-trip oracle",
  "Round trip over random type trees (a dynamic serde seed) and a zoo of derived types, every entry point." + TRUST)
p("C02", "The encoder emits exactly the bin_prot byte format",
  "For every value, the bytes written are the ones the OCaml bin_prot specification prescribes: shortest form for integers and lengths, little-endian payloads, one-byte booleans, chars and options, length-prefixed strings and sequences, record fields in declaration order, variant index byte or 4-byte polymorphic variant tag. This also holds for loosely typed values and for fields declared as natural numbers.",
  ["inputs", "programs"], "all values of all supported shapes, in particular all integers around each width boundary",
  "Tests compare a few dozen constants with OCaml output; widths change at boundaries of a 2^64 space and inside arbitrary nesting.",
  [BP + "ser.rs", BP + "write_ext.rs", BP + "integers/integer.rs", BP + "integers/nat0.rs", BP + "value/ser.rs", BP + "consts.rs"],
  [("integer width selection", BP + "write_ext.rs"), ("Serializer", BP + "ser.rs"), ("Value serialisation", BP + "value/ser.rs")],
  "property-based testing: differential against a reference encoder",
  "Differential against an encoder written from the bin_prot specification." + TRUST)
p("C03", "Integers decode to their exact value or are rejected",
  "Reading an integer of a given width from any bytes either yields exactly the number those bytes denote, consuming exactly its encoding, or fails with an error. A number that does not fit the requested type is never truncated, wrapped or given another sign.",
  ["inputs"], "all byte strings as integer encodings, into every signed and unsigned width and into natural numbers",
  "Tests decode a handful of in-range constants; out-of-range, over-long and negative-into-unsigned encodings are not sampled.",
  [BP + "read_ext.rs", BP + "de.rs", BP + "integers/integer.rs", BP + "integers/nat0.rs"],
  [("bin_read_integer / bin_read_nat0", BP + "read_ext.rs"), ("checked conversion to the requested width", BP + "de.rs")],
  "property-based testing: differential against a 128-bit reference decoder",
  "Differential against a 128-bit reference reader over canonical, over-wide, arbitrary and truncated encodings plus sweeps of leading bytes." + TRUST)
p("C04", "The strict reader accepts exactly a value with nothing after it",
  "Strict decoding succeeds if and only if ordinary decoding succeeds and the source holds no further byte. This does not depend on how the source splits its data into reads.",
  ["inputs", "schedules"], "all valid encodings, any number of trailing bytes, any sequence of read sizes",
  "The single test uses one in-memory slice, where everything arrives in one read.",
  [BP + "de.rs"], [("from_reader_strict end-of-input test", BP + "de.rs")],
  "property-based testing: metamorphic relation over generated trailing bytes and read schedules",
  "Trailing bytes 0..70000 with generated chunk sizes around buffer boundaries." + TRUST)
p("C05", "Hostile bytes cannot crash or exhaust a typed decoder",
  "Decoding any byte string into any supported type returns a value or an error: it never panics, never loops, and never allocates memory out of proportion to the input, whatever lengths the bytes announce.",
  ["inputs"], "all byte strings, all supported target types of bounded nesting (a Rust type that contains itself nests as deep as the bytes say)",
  "Tests feed valid encodings only.",
  [BP + "de.rs", BP + "read_ext.rs"], [("length checks before allocation", BP + "read_ext.rs"), ("error paths of the Deserializer", BP + "de.rs")],
  "fuzzing: structure-aware mutation with allocation and panic oracle",
  "Mutated and random bytes under a counting allocator, panic hook and watchdog." + TRUST)
p("C06", "Truncated input is always rejected and values do not bleed",
  "Every strict prefix of a value's encoding is rejected with an error, typed or layout-driven. Values written back to back are read back one after another, each exactly as if it were alone, and a decoder never consumes bytes beyond its value.",
  ["inputs", "histories"], "all encodings, all cut points, all sequences of values on one stream",
  "No test cuts an encoding or reads more than one value from a stream.",
  [BP + "de.rs", BP + "read_ext.rs", BP + "loose_deserializer.rs"], [("exact reads", BP + "read_ext.rs"), ("Deserializer borrowing the reader", BP + "de.rs")],
  "property-based testing: exhaustive cut points of generated encodings, stream model",
  "Every cut (sampled above 26) of generated encodings; streams of up to six values." + TRUST)
p("C07", "Results do not depend on I/O chunking, and I/O faults surface",
  "Encoding and decoding give the same bytes, value and consumption however the reader or writer splits its transfers, including short reads, short writes and interruptions. When the reader or writer fails, the operation returns an error and what was written until then is a prefix of the correct encoding.",
  ["schedules", "fault_sequences"], "all chunkings of every transfer and all fault offsets",
  "Tests use in-memory buffers that never split or fail.",
  [BP + "write_ext.rs", BP + "read_ext.rs", BP + "ser.rs", BP + "value/ser.rs"], [("write_all / read_exact use", BP + "write_ext.rs")],
  "property-based testing with fault injection: generated transfer schedules against the in-memory result",
  "Adversarial reader/writer with generated chunk sizes, interruptions and a fault at a generated offset." + TRUST)
p("C08", "Polymorphic variants use the OCaml hash and decode to the right variant",
  "A polymorphic variant is written as the OCaml hash of its label and read back as the variant with that label, for every set of labels whose hashes differ. A tag that belongs to no label of the type is rejected.",
  ["inputs", "programs"], "all label sets, all variants, all 32-bit tags",
  "Tests know the hash of two labels and decode one enum.",
  [BP + "polyvar/caml_hash_variant.rs", BP + "polyvar/mod.rs", BP + "ser.rs", BP + "de.rs"],
  [("caml_hash_variant", BP + "polyvar/caml_hash_variant.rs"), ("tag to variant mapping", BP + "de.rs")],
  "property-based testing: differential against an arithmetic definition of the OCaml hash",
  "Labels of five or more characters are the recorded finding polyvar-label-overflow and are generated through precomputed tags only." + TRUST)
p("C09", "Layout-driven decoding yields exactly the value the bytes denote",
  "Given a layout, decoding bytes without a Rust type yields a value tree with exactly the fields, names, variants, list elements and leaves the layout and the bytes prescribe, consuming exactly that value's bytes. Bytes that are no encoding under the layout are rejected.",
  ["inputs", "configurations"], "all supported layouts and all byte strings",
  "Tests decode two recorded blocks under two layouts and look at a few fields.",
  [BP + "loose_deserializer.rs", BP + "value/mod.rs", BP + "value/visitor.rs", BP + "value/enum_data.rs", BP + "value/layout/mod.rs"],
  [("rule stack walking the layout", BP + "value/layout/traverse.rs"), ("deserialize_any by rule", BP + "loose_deserializer.rs"), ("value construction", BP + "value/visitor.rs")],
  "property-based testing: differential against an independent layout interpreter",
  "Random layouts over every supported rule with values generated from the layout; independent interpreter as oracle." + TRUST)
p("C10", "Layout-driven values re-encode to identical bytes",
  "Whatever bytes decode under a layout, writing the resulting value back gives exactly the bytes that were read when these are in canonical form, and a stable canonical form otherwise.",
  ["inputs", "configurations"], "all supported layouts and all encodings",
  "Tests re-encode two recorded blocks.",
  [BP + "value/ser.rs", BP + "value/mod.rs", BP + "loose_deserializer.rs"], [("Value serialisation", BP + "value/ser.rs")],
  "property-based testing: round-trip over generated layouts",
  "Round trip of generated encodings and idempotence on mutated ones." + TRUST)
p("C11", "Hostile bytes or layouts cannot crash layout-driven decoding",
  "Decoding any bytes under any layout that parses returns a value or an error, without panicking, looping, or using memory out of proportion to the input; rules that are not supported give an error. One layout describes one value: asking for more than it describes is an error.",
  ["inputs", "configurations", "fault_sequences"], "all byte strings, all parseable layouts, all reader faults",
  "Tests use two correct layouts and correct bytes.",
  [BP + "loose_deserializer.rs", BP + "value/layout/mod.rs", BP + "value/visitor.rs"], [("error paths of rule dispatch", BP + "loose_deserializer.rs"), ("rule stack", BP + "value/layout/traverse.rs")],
  "fuzzing: structure-aware mutation of bytes and layouts with allocation and panic oracle",
  "Bytes, layouts and reader faults are mutated under a counting allocator." + TRUST)
p("C12", "Layout files are parsed faithfully or rejected",
  "A layout document in JSON is parsed into the rule tree it denotes, with every name, index, option and nesting kept, whatever the order of keys; a document with a missing key, wrong tag, wrong arity or wrong type is rejected with an error.",
  ["inputs", "configurations"], "all layout documents",
  "Tests parse a few snippets and the shipped files, and compare no rule tree in depth.",
  [BP + "value/layout/mod.rs", BP + "value/layout/list_tagged_enum.rs", BP + "value/layout/traverse.rs"], [("serde description of the layout grammar", BP + "value/layout/mod.rs")],
  "property-based testing: grammar-based generation against a reference tree",
  "Grammar-based layout JSON and single-point corruptions." + TRUST)
p("C13", "Layout-driven typed decoding agrees with plain typed decoding",
  "Decoding into a Rust type through a layout that describes the type gives the same value as decoding it without the layout, also when the type declares its fields in another order or leaves parts loosely typed. When the layout and the type disagree about a field's existence or kind, decoding fails.",
  ["inputs", "configurations", "programs"], "all types and layouts that describe them, all values",
  "Tests decode one hand-written struct.",
  [BP + "loose_deserializer.rs", BP + "de.rs", BP + "value/layout/mod.rs"], [("hybrid decoding", BP + "loose_deserializer.rs")],
  "property-based testing: differential between the typed and the layout-driven decoder",
  "Types without enums, newtypes, u8 and f32 (not supported through a layout)." + TRUST)
p("C14", "Lookups in a loosely typed value find exactly what is there",
  "Looking up a field name or an index in a loosely typed value returns that component, by reference to the value itself, and nothing for a name or index that is absent or a value of another kind. Indexing expressions follow any path of present components and reach the component the encoding holds there.",
  ["inputs", "histories"], "all values, all keys, indices and paths",
  "Tests follow a few fixed paths in recorded blocks.",
  [BP + "value/index.rs", BP + "value/mod.rs"], [("Index implementations", BP + "value/index.rs")],
  "property-based testing: model-based comparison with a reference tree",
  "Random values and paths; polymorphic variant payload indexing is unspecified and not claimed." + TRUST)
p("C15", "Version wrappers are transparent and keep the version",
  "Wrapping a value in any number of version levels and encoding it writes each level's version number before the payload, outermost first, and nothing else; decoding gives back the same payload and the version numbers found in the bytes. Converting values in and out of wrappers never changes the payload and always gives wrappers their type's version.",
  ["inputs", "programs"], "all payloads, nesting depths, version numbers and conversion paths",
  "Tests check one constant per macro.",
  ["protocol/versioned/src/lib.rs", "protocol/versioned/src/macros.rs"], [("Versioned type and conversions", "protocol/versioned/src/lib.rs"), ("conversion macros", "protocol/versioned/src/macros.rs")],
  "property-based testing: reference encoding and round-trip over generated payloads",
  "17 wrapper types of one to four levels, every conversion macro." + TRUST)
p("C19", "Shipped Mina layouts decode and reproduce Mina data",
  "Every layout file shipped for Mina's block types parses; values of those types decode under them and re-encode to identical bytes, including the recorded main-net blocks. Any corruption of such data gives a value that re-encodes stably or an error, never a crash.",
  ["inputs", "configurations"], "all shipped layouts, all values they describe, all mutations of the recorded blocks",
  "Tests decode the recorded blocks unchanged.",
  ["protocol/layouts", "protocol/test-fixtures", BP + "loose_deserializer.rs", BP + "value/layout/mod.rs"], [("shipped layouts", "protocol/layouts"), ("layout-driven decoder", BP + "loose_deserializer.rs")],
  "property-based testing: generated values of the shipped layouts, mutated recorded blocks",
  "Generated values for every shipped layout plus recorded blocks, mutated." + TRUST)
p("C20", "A typed decoder accepts exactly its type's encodings",
  "For every type, a byte string is accepted if and only if it starts with an encoding of a value of that type: bytes other than 0 and 1 for booleans and options, unknown variant numbers, wrong units, invalid UTF-8 and out-of-range numbers are rejected wherever they occur. What is accepted decodes to the value those bytes denote.",
  ["inputs", "programs"], "all types and all byte strings",
  "Tests only feed valid encodings.",
  [BP + "de.rs", BP + "read_ext.rs"], [("validation in the readers", BP + "read_ext.rs"), ("Deserializer", BP + "de.rs")],
  "property-based testing: differential against a reference decoder on mutated encodings",
  "Differential with a reference decoder; inputs whose outcome the format leaves open (listed in DESIGN.md) are not judged." + TRUST)

EXTRA = os.path.join(HERE, "tools", "extra_props.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

P.sort(key=lambda d: d["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}) + "\n")
man = dict(
    version=1, setup_cmd="python3 check.py --setup",
    checks=[dict(property=d["id"], quick_cmd=f"python3 check.py {d['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {d['id']}", technique=d["_t"], level="exploration", level_note=d["_n"]) for d in P if not d["_na"]],
    not_applicable=[dict(property=d["id"], reason=d["_na"]) for d in P if d["_na"]],
    notes="No hooks in /repo were needed. See DESIGN.md.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
