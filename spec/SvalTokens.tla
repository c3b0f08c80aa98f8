----------------------------- MODULE SvalTokens -----------------------------
(***************************************************************************)
(* The alphabet of sval: one record per call on a stream.                  *)
(*                                                                         *)
(* Text is a sequence of Unicode code points, binary a sequence of bytes,  *)
(* numbers are their decimal text (TLC integers are 32 bit; none of the    *)
(* stream level machinery does arithmetic on payloads), absent size hints  *)
(* are -1, absent tags are "".                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoTag == ""
NoLab == [some |-> FALSE, s |-> <<>>, st |-> FALSE, id |-> FALSE]
\* st: made from static text; id: carries the "is a Rust identifier" hint
Lab(s, st, id) == [some |-> TRUE, s |-> s, st |-> st, id |-> id]
NoIdx == [some |-> FALSE, v |-> "", off |-> FALSE]
\* off: carries the "is an offset" hint
Idx(v, off) == [some |-> TRUE, v |-> v, off |-> off]
NoMeta == [tag |-> NoTag, lab |-> NoLab, idx |-> NoIdx]
Meta(t, l, i) == [tag |-> t, lab |-> l, idx |-> i]

Null == [k |-> "null"]
Bool(b) == [k |-> "bool", v |-> b]
Num(kind, v) == [k |-> kind, v |-> v]
IntKinds == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
FloatKinds == {"f32", "f64"}
NumKinds == IntKinds \cup FloatKinds
TextBegin(n) == [k |-> "text_begin", n |-> n]
\* b: borrowed (long-lived) rather than computed (short-lived)
TextFrag(s, b) == [k |-> "text_fragment", s |-> s, b |-> b]
TextEnd == [k |-> "text_end"]
BinBegin(n) == [k |-> "binary_begin", n |-> n]
BinFrag(s, b) == [k |-> "binary_fragment", s |-> s, b |-> b]
BinEnd == [k |-> "binary_end"]
MapBegin(n) == [k |-> "map_begin", n |-> n]
MapKeyBegin == [k |-> "map_key_begin"]
MapKeyEnd == [k |-> "map_key_end"]
MapValueBegin == [k |-> "map_value_begin"]
MapValueEnd == [k |-> "map_value_end"]
MapEnd == [k |-> "map_end"]
SeqBegin(n) == [k |-> "seq_begin", n |-> n]
SeqValueBegin == [k |-> "seq_value_begin"]
SeqValueEnd == [k |-> "seq_value_end"]
SeqEnd == [k |-> "seq_end"]
TagTok(m) == [k |-> "tag", m |-> m]
TagHint(t) == [k |-> "tag_hint", t |-> t]
EnumBegin(m) == [k |-> "enum_begin", m |-> m]
EnumEnd(m) == [k |-> "enum_end", m |-> m]
TaggedBegin(m) == [k |-> "tagged_begin", m |-> m]
TaggedEnd(m) == [k |-> "tagged_end", m |-> m]
RecordBegin(m, n) == [k |-> "record_begin", m |-> m, n |-> n]
RecordValueBegin(t, l) == [k |-> "record_value_begin", t |-> t, lab |-> l]
RecordValueEnd(t, l) == [k |-> "record_value_end", t |-> t, lab |-> l]
RecordEnd(m) == [k |-> "record_end", m |-> m]
TupleBegin(m, n) == [k |-> "tuple_begin", m |-> m, n |-> n]
TupleValueBegin(t, i) == [k |-> "tuple_value_begin", t |-> t, idx |-> i]
TupleValueEnd(t, i) == [k |-> "tuple_value_end", t |-> t, idx |-> i]
TupleEnd(m) == [k |-> "tuple_end", m |-> m]
RecordTupleBegin(m, n) == [k |-> "record_tuple_begin", m |-> m, n |-> n]
RecordTupleValueBegin(t, l, i) == [k |-> "record_tuple_value_begin", t |-> t, lab |-> l, idx |-> i]
RecordTupleValueEnd(t, l, i) == [k |-> "record_tuple_value_end", t |-> t, lab |-> l, idx |-> i]
RecordTupleEnd(m) == [k |-> "record_tuple_end", m |-> m]
\* A whole value handed over in one call: stream.value(v) (c = FALSE) or
\* stream.value_computed(v) (c = TRUE); the tokens up to the matching ValClose
\* are what the value itself streams.
ValOpen(c) == [k |-> "v(", c |-> c]
ValClose == [k |-> "v)"]

SomeTag == "RUST_OPTION_SOME"
NoneTag == "RUST_OPTION_NONE"
UnitTag == "RUST_UNIT"
NumberTag == "NUMBER"
ConstTag == "CONSTANT_SIZE"
JsonValueTag == "JSON_VALUE"
JsonTextTag == "JSON_TEXT"
JsonNumberTag == "JSON_NUMBER"

\* Number of bytes of a text in UTF-8.
CpLen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Utf8Len(_)
Utf8Len(s) == IF s = <<>> THEN 0 ELSE CpLen(Head(s)) + Utf8Len(Tail(s))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
=============================================================================
