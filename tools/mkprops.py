#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay schema-valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("S01", "Built-in values stream as balanced, self-consistent token sequences",
  "Every value implementation the workspace ships emits exactly one complete value: every begin is closed by the matching end in nesting order, keys and values alternate, the metadata given when something is closed equals the metadata given when it was opened, and a value that knows its length gives it as a size hint equal to the number of entries or bytes that follow. The sequence carries exactly the data held by the value, in order, with its Rust shape (optional, unit, fixed-size array, tuple offset) marked by the documented tags, and text and binary that live as long as the value are handed over as long-lived. Wrapping a value in a reference, box, dynamic value or Ref changes nothing, and if the stream fails the value stops and reports it.",
  ["inputs", "programs"], "all values of all shipped implementations, nested arbitrarily",
  "unit tests compare a few hand-written token lists per type; nesting of types and boundary contents is unbounded",
  ["src/data.rs", "src/data/*.rs", "src/value.rs", "buffer/src/*.rs", "ref/src/*.rs"],
  [("value implementations", "src/data/*.rs"), ("call contract", "src/stream.rs")], "recorded calls on a stream")
p("S02", "A stream implementing only the required calls still receives all the data",
  "When a stream relies on the default behaviour for calls it does not implement, each such call arrives as an equivalent sequence of the calls it does implement: integers and floats widen to the next wider kind without changing value, integers too wide for the widest required kind arrive as arbitrary-precision number text, binary arrives as a sequence of bytes, maps as sequences of key-value pairs, records and tuples as their labelled map or sequence form, and a standalone tag as its label, its optional-none null, or null. The resulting sequence is itself balanced, and no datum, order or borrowed-ness that the target can express is lost.",
  ["inputs", "histories"], "all token sequences, all integer widths and boundary values",
  "default behaviour is a web of calls into other defaults; tests look at a few leaves only",
  ["src/stream.rs"], [("default lowering functions", "src/stream.rs default_stream")], "recorded calls on a minimal stream")
p("S03", "References, boxes, trait objects and ref wrappers are invisible",
  "Streaming a value to a stream through any stack of the provided wrappers (mutable reference, box, dynamically dispatched stream; shared reference, box, dynamically dispatched value, reference wrapper) delivers exactly the calls, in order and with all arguments, that streaming directly would, and returns the same result. Conversions asked of a wrapped value answer exactly as the value itself does.",
  ["inputs", "histories"], "all token sequences through all wrapper stacks",
  "each wrapper re-declares some fifty forwarding methods; one crossed wire in one method shows only for that call with that argument",
  ["src/stream.rs", "src/value.rs", "dynamic/src/stream.rs", "dynamic/src/value.rs", "ref/src/lib.rs", "ref/src/seq.rs"],
  [("forwarding macros", "src/stream.rs impl_stream_forward, src/value.rs impl_value_forward"), ("object-safe dispatch", "dynamic/src")], "recorded calls")
p("S04", "Borrowed data stays borrowed and computed data is never passed as borrowed",
  "A text or binary fragment reaches the stream as long-lived exactly when it comes out of data that outlives the stream and nothing between the value and the stream was declared short-lived; everything streamed inside a short-lived value arrives as short-lived, at any depth. All other calls and their arguments are unaffected by that distinction.",
  ["inputs", "histories"], "all nestings of long-lived and short-lived streaming around all token sequences",
  "depends on every layer between value and stream forwarding the right one of two near-identical calls",
  ["src/stream.rs", "src/data/text.rs", "src/data/binary.rs", "buffer/src/*.rs", "ref/src/lib.rs", "dynamic/src/stream.rs"],
  [("computed wrapper", "src/stream.rs Computed"), ("text and binary fragments", "src/data/text.rs, src/data/binary.rs")], "recorded calls, address ranges of fragments")
p("B01", "Buffering a value and streaming the buffer reproduces the value",
  "Collecting any complete token sequence into the value buffer and streaming the result yields the same structure, metadata, size hints, data and order as streaming the original, with adjacent fragments of one text or binary merged. That also holds for the owned form, the cloned form, a buffer nested in a larger stream, and a buffer that was cleared and reused, and an empty buffer streams as null.",
  ["inputs", "histories"], "all token sequences, all histories of collect/clear/convert operations",
  "the buffer stores sub-tree lengths that only matter for particular nestings and orders",
  ["buffer/src/value.rs"], [("buffer parts and lengths", "buffer/src/value.rs")], "recorded calls of the replay")
p("B02", "The value buffer knows whether it is complete and refuses unbalanced input",
  "At every point of a token sequence the value buffer reports itself complete exactly when it holds one whole value and nothing is open. Closing a container when none is open, and giving a fragment of text or binary where there is no text or binary, is reported as an error and leaves what was collected as it was, and a value that fails half way makes collecting it fail. None of this panics.",
  ["histories", "fault_sequences"], "all prefixes of all token sequences, balanced or not",
  "tests check completeness after one or two whole values, not after every prefix",
  ["buffer/src/value.rs"], [("completeness", "buffer/src/value.rs ValueBuf::is_complete, push_end")], "is_complete and results after each call")
p("B03", "Fragment buffers hold exactly the concatenation of their fragments",
  "A text or binary buffer fed any series of long-lived and short-lived fragments holds exactly their concatenation, hands it out as long-lived only if it is a single long-lived fragment, and starts empty again after being cleared. Collecting a value into such a buffer succeeds exactly when the value amounts to one text (for text: text itself, tagged or as an enum variant, or what arrives as text at a stream that implements only the required calls) or to bytes (for binary: binary, a byte, or sequences of these), then holds that content, and otherwise fails without a panic.",
  ["inputs", "histories"], "all series of fragments and buffer operations",
  "the borrowed-to-owned switch depends on the order and emptiness of fragments",
  ["buffer/src/text.rs", "buffer/src/binary.rs", "buffer/src/fragments.rs"],
  [("fragment buffer", "buffer/src/fragments.rs")], "as_str/as_slice, as_borrowed_*, streaming the buffer")
p("J01", "JSON output is one valid document with the structure of the value",
  "For every complete token sequence, writing JSON either fails because a map key is not a scalar or text, or writes exactly one syntactically valid document whose nesting, order, keys, strings, numbers, booleans and nulls are those of the value. Enum variants are wrapped in a single-entry object named by their label, or else by their index, non-finite numbers and absent optionals are null, binary is an array of byte numbers, and tags and embedded JSON are rendered as documented.",
  ["inputs", "histories"], "all token sequences, nested arbitrarily",
  "the writer tracks context in a few flags, so correctness depends on the whole history of nested begins and ends; tests use a handful of shapes",
  ["json/src/to_fmt.rs", "json/src/to_string.rs", "json/src/to_vec.rs", "json/src/to_io.rs", "json/src/to_value.rs"],
  [("writer flags", "json/src/to_fmt.rs Formatter")], "output text parsed by an independent strict parser")
p("J02", "JSON strings decode to exactly the streamed text however it is fragmented",
  "Any text, key or label written as a JSON string decodes back to exactly the same characters: quotes, backslashes and all control characters are escaped and everything else is left as is. The bytes written do not depend on how the text was split into fragments, nor on which of the output forms was used.",
  ["inputs"], "all strings and all ways to split them",
  "the space of strings and splits is unbounded; tests use a few literals",
  ["json/src/to_fmt.rs", "json/src/to_io.rs", "json/src/to_value.rs"], [("escaping", "json/src/to_fmt.rs escape_str")], "output bytes")
p("J03", "Arbitrary-precision number text becomes an equal, valid JSON number",
  "Text tagged as an arbitrary-precision number that matches the documented grammar is written as a valid JSON number with exactly the same numeric value, however it is split into fragments, and infinities and not-a-number texts become null. Every built-in integer and float kind is written as a number that reads back as exactly that value.",
  ["inputs"], "all number texts in the grammar, all splits, all numeric values",
  "sign, leading zeros, fraction and exponent interact across fragment boundaries; tests list a few texts in one fragment",
  ["json/src/to_fmt.rs", "src/data/number.rs"], [("number normalisation", "json/src/to_fmt.rs NumberTextHandler")], "output text")
p("J04", "Writing JSON succeeds only if every byte reached the writer",
  "When the underlying writer fails, accepts only part of what it is offered, or accepts nothing, the bytes it received are always a prefix of the document. The call reports success exactly when the writer received the whole document, and reports an error otherwise, without writing anything after the failure; an interrupted write is retried and is not a failure.",
  ["fault_sequences", "inputs"], "all documents and all sequences of full, short, interrupted, empty and failing writes",
  "tests only write to vectors and strings that never fail",
  ["json/src/to_io.rs", "json/src/to_fmt.rs", "fmt/src/to_write.rs"], [("io adapter", "json/src/to_io.rs"), ("error mapping", "json/src/to_fmt.rs stream_to_fmt_write")], "bytes received by a scripted writer and the returned result")
p("N01", "Recursive streams see the same tree that was streamed flat",
  "Driving a recursive stream from any flat token sequence presents exactly the tree the tokens describe: each container with its metadata and size hint, its children in order, keys with their values, text and binary as single whole pieces, long-lived where the source was one long-lived piece, and standalone tags and nested enum variants in place. If the target rejects something the result is an error, never a panic or a partial success.",
  ["inputs", "histories"], "all token sequences, mixing direct calls and whole-value calls",
  "the adapter buffers sub-values only in particular states, so behaviour depends on the combination of nesting and calling style",
  ["nested/src/flat.rs", "nested/src/flat_enum.rs", "nested/src/lib.rs"], [("flat-to-recursive state machine", "nested/src/flat.rs"), ("nested variant queue", "nested/src/flat_enum.rs")], "tree built by a recording recursive stream")
p("D01", "Values serialize through serde with the same shape and data",
  "Any value handed to a serde serializer produces the serializer calls that correspond to its structure: scalars keep their width, text and binary are whole, sequences, maps, tuples, records, units, optionals, newtypes and all enum variant forms keep names, indexes, lengths, order and nesting. A tag without a label adds nothing, and a record without a name is a tuple. A value that has no such form (a name that is not static, a tuple or record of unknown length, an enum inside an enum), or a value or serializer that fails, gives an error.",
  ["inputs", "fault_sequences"], "all token sequences and serializer failures",
  "tests cover one instance per serde shape, not nesting or failures",
  ["serde/src/to_serialize.rs", "nested/src/*.rs"], [("nested to serde", "serde/src/to_serialize.rs")], "calls on a recording serializer")
p("D02", "Serde-serializable data streams with the same shape and data",
  "Any data described through serde's serializer interface streams as the corresponding balanced token sequence, with names, variant indexes, lengths, order and nesting preserved and metadata equal at begin and end. An error of the data or the stream is returned as an error.",
  ["inputs", "fault_sequences"], "all trees of serializer calls and stream failures",
  "tests cover one instance per serde shape, not nesting or failures",
  ["serde/src/to_value.rs"], [("serde to stream", "serde/src/to_value.rs")], "recorded calls")
p("F01", "Flattening splices a value's entries onto its parent as documented",
  "Flattening a map, sequence, record or tuple (through tags and enums) onto a parent map, sequence, record, tuple or record-tuple adds exactly its entries, in order, with the values passed through unchanged and the keys, labels and indexes translated as documented: map keys become labels holding their text, entries without a key are labelled by their position, a variant holding a single value is an entry labelled by the variant, an explicit index is kept, and positional entries are numbered onwards from the given offset. The offset after the last entry is returned. Other values add nothing, and the parent's stream stays balanced. (Offsets near the ends of isize are left out.)",
  ["inputs", "histories"], "all pairs of parent kind and flattened token sequence, all starting offsets, nested containers in keys and values",
  "tests flatten one flat example per pair; nested containers inside entries and complex keys are not reached",
  ["flatten/src/*.rs", "derive_macros/src/stream/stream_record_tuple.rs"], [("flattener", "flatten/src/flattener.rs"), ("label buffer", "flatten/src/label.rs"), ("index allocation", "flatten/src/index.rs")], "recorded calls")
p("V01", "Conversions from values are exact or refused",
  "Asking a value for a boolean, a sized integer, a float, borrowed text or borrowed binary returns the datum exactly when the value is a single scalar (possibly tagged) of a compatible kind that is exactly representable in the requested type, and otherwise returns nothing. It may also be refused, but never changed, for an integer of the other signedness, a double asked for as a single, and text or binary that is not one long-lived piece. The answer agrees for every wrapper around the value and with what streaming the value shows.",
  ["inputs"], "all values, all pairs of source kind and target type, all boundary values",
  "12 source kinds by 12 targets by boundary values; tests check a diagonal",
  ["src/value.rs", "src/data/*.rs", "src/data.rs"], [("default casts", "src/value.rs default_value"), ("index casts", "src/data.rs Index")], "returned options")
p("L01", "Labels, tags and indexes compare, hash, convert and copy consistently",
  "Labels are equal and hashed by their text alone however they were created, copied or made owned, and keep that text and their tag for as long as the copy lives; only labels created from static text claim to be static. Tags are equal exactly when they were created with the same identity, and indexes compare and convert by their numeric value for every integer type without wrapping.",
  ["inputs", "histories"], "all ways to create, clone, tag, own and compare; all integer boundary values",
  "aliasing and ownership bugs need specific chains of operations to show",
  ["src/data.rs"], [("label representation", "src/data.rs Label"), ("tag identity", "src/data.rs Tag"), ("index", "src/data.rs Index")], "returned values")
p("M01", "Formatted output is the documented Rust-like rendering of the value",
  "Formatting any value writes balanced Rust-like syntax holding exactly its structure and data: text quoted and escaped like Rust debug text, numbers plain, unit for null, sequences, maps, tuples and records with their type name when present, and enum variants by their own name. The output does not depend on how text is fragmented nor on the entry point used, a token writer is told the class of every token, and when the writer or the value fails formatting stops and reports it.",
  ["inputs", "fault_sequences"], "all token sequences and writer failures",
  "separator and emptiness tracking depends on nesting history; tests compare a few shapes",
  ["fmt/src/writer.rs", "fmt/src/token_write.rs", "fmt/src/to_fmt.rs", "fmt/src/to_write.rs", "fmt/src/to_value.rs"], [("writer flags", "fmt/src/writer.rs"), ("token writer", "fmt/src/token_write.rs")], "output text")
p("G01", "Derived values stream their fields as their attributes say",
  "A derived value streams exactly its non-skipped fields in declaration order, as a record-tuple, record, tuple or sequence according to whether fields are labelled and indexed, with the names, labels, indexes, tags and size hints its attributes and declaration specify. Enums carry their own name, each variant has its own name and its declared or positional index, and newtype, unit, dynamic, transparent and flatten forms stream as documented. Declarations whose attributes contradict each other or do not apply are rejected at compile time.",
  ["programs", "inputs"], "all type declarations built from the supported attributes, and all their values",
  "the macro is a compiler: attribute combinations multiply, tests list some",
  ["derive_macros/src/**", "derive/src/lib.rs"], [("derive expansion", "derive_macros/src/derive/*.rs"), ("field streaming", "derive_macros/src/stream/*.rs"), ("index allocation", "derive_macros/src/index.rs")], "recorded calls")
p("E01", "A failing stream stops the value at once and the failure is returned",
  "If a stream fails on any call, whatever value, wrapper or adapter is being streamed makes no further calls on that stream and returns an error to its caller. Streaming never panics because of such a failure, and without failures it returns success. A failure of a value streamed inside another (an element, a field, a wrapped value, serde data) likewise ends the streaming at once and is returned.",
  ["fault_sequences", "inputs"], "every call position of every token sequence, failing as target or as value, through every container, wrapper and adapter",
  "tests never inject failures; each propagation site is a separate question mark operator",
  ["src/data/*.rs", "src/stream.rs", "buffer/src/value.rs", "dynamic/src/*.rs", "flatten/src/*.rs", "serde/src/*.rs", "fmt/src/to_value.rs", "derive_macros/src/**"],
  [("error propagation", "every streaming implementation")], "calls counted by a stream failing at the n-th call, returned result")
p("R01", "Without an allocator, buffering fails instead of losing data",
  "In builds without allocation, fragment buffers and the value buffer hold at most one long-lived fragment or a bounded amount and report an error for anything more; whatever they do hold is exactly what was streamed. Streaming, formatting, flattening and recursive streaming that need no buffering give the same results as in builds with allocation.",
  ["configurations", "inputs"], "all token sequences in builds without allocation",
  "the no-allocation code paths are compiled but hardly exercised by the tests",
  ["buffer/src/*.rs", "nested/src/*.rs", "flatten/src/*.rs", "src/data.rs"], [("no-alloc buffers", "buffer/src/std.rs and cfg(not(feature = \"alloc\")) branches")], "results and replays in a no-alloc harness build")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
