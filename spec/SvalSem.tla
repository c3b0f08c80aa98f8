------------------------------ MODULE SvalSem -------------------------------
(***************************************************************************)
(* What a token sequence means: removing nested hand-overs (Flat), the     *)
(* default lowering of calls a stream does not implement (Lower), the tree *)
(* it describes (TreeOf), and the data it carries (Data).                  *)
(***************************************************************************)
EXTENDS SvalGrammar

-----------------------------------------------------------------------------
(* Decimal numbers as text *)

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal == [c \in {Digits[i] : i \in 1..10} |-> (CHOOSE i \in 1..10 : Digits[i] = c) - 1]
ChAt(s, i) == SubSeq(s, i, i)
IsNeg(v) == ChAt(v, 1) = "-"
Abs(v) == IF IsNeg(v) THEN SubSeq(v, 2, Len(v)) ELSE v
RECURSIVE DigLeq(_, _)
DigLeq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF Len(a) = 0 THEN TRUE
  ELSE LET x == DigitVal[ChAt(a, 1)] y == DigitVal[ChAt(b, 1)] IN
       IF x # y THEN x < y ELSE DigLeq(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
\* lo and hi are the magnitudes of the smallest and largest value.
Fits(v, lo, hi) == IF IsNeg(v) THEN DigLeq(Abs(v), lo) ELSE DigLeq(v, hi)
FitsI64(v) == Fits(v, "9223372036854775808", "9223372036854775807")
\* Text of a decimal number as code points.
DecCps(v) == [i \in 1..Len(v) |-> IF ChAt(v, i) = "-" THEN 45 ELSE 48 + DigitVal[ChAt(v, i)]]

\* The widening of the single precision payloads in use.
WidenF32 == [x \in {"0.1", "3.4028235e38", "16777216.0", "NaN", "inf", "-inf", "1.5", "-0.0", "1e-45", "0.0"} |->
  CASE x = "0.1" -> "0.10000000149011612"
    [] x = "3.4028235e38" -> "3.4028234663852886e38"
    [] x = "1e-45" -> "1.401298464324817e-45"
    [] OTHER -> x]

-----------------------------------------------------------------------------
(* Nested hand-overs: everything inside a short-lived value is short-lived. *)

RECURSIVE FlatFrom(_, _, _)
FlatFrom(toks, opens, out) ==
  IF toks = <<>> THEN out ELSE
  LET t == Head(toks) r == Tail(toks)
      short == \E i \in 1..Len(opens) : opens[i]
  IN CASE t.k = "v(" -> FlatFrom(r, Append(opens, t.c), out)
       [] t.k = "v)" -> FlatFrom(r, SubSeq(opens, 1, Len(opens) - 1), out)
       [] t.k \in {"text_fragment", "binary_fragment"} /\ short -> FlatFrom(r, opens, Append(out, [t EXCEPT !.b = FALSE]))
       [] OTHER -> FlatFrom(r, opens, Append(out, t))
Flat(toks) == FlatFrom(toks, <<>>, <<>>)

\* Adjacent fragments of one text or binary merged.  Whole == one fragment,
\* long-lived only if a single long-lived one was given.
RECURSIVE Merged(_)
Merged(toks) ==
  IF Len(toks) < 2 THEN toks ELSE
  LET a == toks[1] b == toks[2] r == SubSeq(toks, 3, Len(toks)) IN
  IF a.k \in {"text_fragment", "binary_fragment"} /\ b.k = a.k
  THEN Merged(<<[a EXCEPT !.s = a.s \o b.s, !.b = FALSE]>> \o r)
  ELSE <<a>> \o Merged(Tail(toks))

\* Hints inside a text or binary have no place of their own.
RECURSIVE DropInnerHints(_, _, _)
DropInnerHints(toks, inside, out) ==
  IF toks = <<>> THEN out ELSE
  LET t == Head(toks) IN
  IF t.k = "tag_hint" /\ inside THEN DropInnerHints(Tail(toks), inside, out)
  ELSE DropInnerHints(Tail(toks), IF t.k \in {"text_begin", "binary_begin"} THEN TRUE ELSE IF t.k \in {"text_end", "binary_end"} THEN FALSE ELSE inside, Append(out, t))
OuterHints(toks) == DropInnerHints(toks, FALSE, <<>>)

-----------------------------------------------------------------------------
(* Default lowering *)

Group == [
  binary |-> {"binary_begin", "binary_fragment_computed", "binary_end"},
  binary_fragment |-> {"binary_fragment"},
  map |-> {"map_begin", "map_key_begin", "map_key_end", "map_value_begin", "map_value_end", "map_end"},
  record |-> {"record_begin", "record_value_begin", "record_value_end", "record_end"},
  tuple |-> {"tuple_begin", "tuple_value_begin", "tuple_value_end", "tuple_end"},
  record_tuple |-> {"record_tuple_begin", "record_tuple_value_begin", "record_tuple_value_end", "record_tuple_end"},
  enum |-> {"enum_begin", "enum_end"},
  tagged |-> {"tagged_begin", "tagged_end"},
  tag |-> {"tag"}, tag_hint |-> {"tag_hint"}, text_fragment |-> {"text_fragment"},
  u8 |-> {"u8"}, u16 |-> {"u16"}, u32 |-> {"u32"}, u64 |-> {"u64"}, u128 |-> {"u128"},
  i8 |-> {"i8"}, i16 |-> {"i16"}, i32 |-> {"i32"}, i128 |-> {"i128"}, f32 |-> {"f32"}]
GroupNames == DOMAIN Group
Required == {"null", "bool", "text_begin", "text_fragment_computed", "text_end", "i64", "f64",
             "seq_begin", "seq_value_begin", "seq_value_end", "seq_end"}
\* The methods a stream implements, given the groups it implements.
Methods(gs) == Required \cup UNION {Group[g] : g \in gs}

LabelText(l) == <<TextBegin(Utf8Len(l.s)), TextFrag(l.s, l.st), TextEnd>>
NumberText(v) == LET m == Meta(NumberTag, NoLab, NoIdx) IN
  <<TaggedBegin(m), TextBegin(-1), TextFrag(DecCps(v), FALSE), TextEnd, TaggedEnd(m)>>
PlainIdx(v) == Idx(v, FALSE)

\* The method a token calls.
MethodOf(t) == IF t.k \in {"text_fragment", "binary_fragment"} /\ ~t.b THEN t.k \o "_computed" ELSE t.k

\* One level of default behaviour for a call that is not implemented.
Default(t) ==
  CASE t.k = "u8" -> <<Num("u16", t.v)>>
    [] t.k = "u16" -> <<Num("u32", t.v)>>
    [] t.k = "u32" -> <<Num("u64", t.v)>>
    [] t.k = "u64" -> <<Num("u128", t.v)>>
    [] t.k = "u128" -> IF FitsI64(t.v) THEN <<Num("i64", t.v)>> ELSE NumberText(t.v)
    [] t.k = "i8" -> <<Num("i16", t.v)>>
    [] t.k = "i16" -> <<Num("i32", t.v)>>
    [] t.k = "i32" -> <<Num("i64", t.v)>>
    [] t.k = "i128" -> IF FitsI64(t.v) THEN <<Num("i64", t.v)>> ELSE NumberText(t.v)
    [] t.k = "f32" -> <<Num("f64", WidenF32[t.v])>>
    [] t.k = "text_fragment" -> <<TextFrag(t.s, FALSE)>>
    [] t.k = "binary_begin" -> <<SeqBegin(t.n)>>
    [] t.k = "binary_fragment" /\ t.b -> <<BinFrag(t.s, FALSE)>>
    [] t.k = "binary_fragment" ->
         Flatten([i \in 1..Len(t.s) |-> <<SeqValueBegin, Num("u8", ToString(t.s[i])), SeqValueEnd>>])
    [] t.k = "binary_end" -> <<SeqEnd>>
    [] t.k = "map_begin" -> <<SeqBegin(t.n)>>
    [] t.k = "map_key_begin" -> <<SeqValueBegin, TupleBegin(NoMeta, 2), TupleValueBegin(NoTag, PlainIdx("0"))>>
    [] t.k = "map_key_end" -> <<TupleValueEnd(NoTag, PlainIdx("0"))>>
    [] t.k = "map_value_begin" -> <<TupleValueBegin(NoTag, PlainIdx("1"))>>
    [] t.k = "map_value_end" -> <<TupleValueEnd(NoTag, PlainIdx("1")), TupleEnd(NoMeta), SeqValueEnd>>
    [] t.k = "map_end" -> <<SeqEnd>>
    [] t.k = "enum_begin" -> <<TaggedBegin(t.m)>>
    [] t.k = "enum_end" -> <<TaggedEnd(t.m)>>
    [] t.k \in {"tagged_begin", "tagged_end", "tag_hint"} -> <<>>
    [] t.k = "tag" ->
         <<TaggedBegin(t.m)>>
         \o (IF t.m.tag = NoneTag THEN <<Null>> ELSE IF t.m.lab.some THEN LabelText(t.m.lab) ELSE <<Null>>)
         \o <<TaggedEnd(t.m)>>
    [] t.k = "record_begin" -> <<TaggedBegin(t.m), MapBegin(t.n)>>
    [] t.k = "record_value_begin" -> <<MapKeyBegin>> \o LabelText(t.lab) \o <<MapKeyEnd, MapValueBegin>>
    [] t.k = "record_value_end" -> <<MapValueEnd>>
    [] t.k = "record_end" -> <<MapEnd, TaggedEnd(t.m)>>
    [] t.k = "tuple_begin" -> <<TaggedBegin(t.m), SeqBegin(t.n)>>
    [] t.k = "tuple_value_begin" -> <<SeqValueBegin>>
    [] t.k = "tuple_value_end" -> <<SeqValueEnd>>
    [] t.k = "tuple_end" -> <<SeqEnd, TaggedEnd(t.m)>>
    [] t.k = "record_tuple_begin" -> <<RecordBegin(t.m, t.n)>>
    [] t.k = "record_tuple_value_begin" -> <<RecordValueBegin(t.t, t.lab)>>
    [] t.k = "record_tuple_value_end" -> <<RecordValueEnd(t.t, t.lab)>>
    [] t.k = "record_tuple_end" -> <<RecordEnd(t.m)>>

\* What a stream implementing exactly the methods ms receives.
RECURSIVE Lower(_, _)
Lower(ms, toks) ==
  IF toks = <<>> THEN <<>>
  ELSE LET t == Head(toks) IN
       (IF MethodOf(t) \in ms THEN <<t>> ELSE Lower(ms, Default(t))) \o Lower(ms, Tail(toks))

\* Balance, for sequences that may have lost the variants inside an enum.
Relax(t) == IF t.k = "enum_begin" THEN TaggedBegin(t.m) ELSE IF t.k = "enum_end" THEN TaggedEnd(t.m) ELSE t
Balanced(toks) == Accepts([i \in 1..Len(toks) |-> Relax(toks[i])])

\* The data carried by a sequence, in order: what no lowering may lose.
DataOf(t) ==
  CASE t.k = "bool" -> << <<"b", IF t.v THEN <<1>> ELSE <<0>> >> >>
    [] t.k \in IntKinds -> << <<"t", DecCps(t.v)>> >>
    [] t.k = "f32" -> << <<"f", WidenF32[t.v]>> >>
    [] t.k = "f64" -> << <<"f", t.v>> >>
    [] t.k = "null" -> << <<"0", <<>> >> >>
    [] t.k = "text_fragment" -> IF t.s = <<>> THEN <<>> ELSE << <<"t", t.s>> >>
    [] t.k = "binary_fragment" -> [i \in 1..Len(t.s) |-> <<"t", DecCps(ToString(t.s[i]))>>]
    [] t.k = "tag" -> IF t.m.tag = NoneTag \/ ~t.m.lab.some THEN << <<"0", <<>> >> >>
                      ELSE IF t.m.lab.s = <<>> THEN <<>> ELSE << <<"t", t.m.lab.s>> >>
    [] t.k \in {"record_value_begin", "record_tuple_value_begin"} ->
         IF t.lab.s = <<>> THEN <<>> ELSE << <<"t", t.lab.s>> >>
    [] OTHER -> <<>>
Data(toks) == Flatten([i \in 1..Len(toks) |-> DataOf(toks[i])])

-----------------------------------------------------------------------------
(* The tree a flat sequence describes.  Parse returns <<node, rest>>.      *)

RECURSIVE Frags(_, _, _)
Frags(toks, kind, acc) ==   \* <<fragments, rest>>
  IF Head(toks).k = kind THEN Frags(Tail(toks), kind, Append(acc, Head(toks))) ELSE <<acc, Tail(toks)>>
WholeS(fs) == Flatten([i \in 1..Len(fs) |-> fs[i].s])

RECURSIVE SkipHints(_)
SkipHints(toks) == IF Head(toks).k = "tag_hint" THEN SkipHints(Tail(toks)) ELSE toks
RECURSIVE Parse(_), ParseItems(_, _, _)
Parse(toks) ==
  LET t == Head(toks) r == Tail(toks) IN
  CASE t.k = "tag_hint" -> Parse(r)
    [] t.k \in ScalarKinds -> <<t, r>>
    [] t.k = "tag" -> <<t, r>>
    [] t.k = "text_begin" -> LET f == Frags(r, "text_fragment", <<>>) IN
         <<[k |-> "text", n |-> t.n, s |-> WholeS(f[1]), fs |-> f[1]], f[2]>>
    [] t.k = "binary_begin" -> LET f == Frags(r, "binary_fragment", <<>>) IN
         <<[k |-> "binary", n |-> t.n, s |-> WholeS(f[1]), fs |-> f[1]], f[2]>>
    [] t.k = "map_begin" -> LET i == ParseItems("map", r, <<>>) IN <<[k |-> "map", n |-> t.n, xs |-> i[1]], i[2]>>
    [] t.k = "seq_begin" -> LET i == ParseItems("seq", r, <<>>) IN <<[k |-> "seq", n |-> t.n, xs |-> i[1]], i[2]>>
    [] t.k = "record_begin" -> LET i == ParseItems("record", r, <<>>) IN <<[k |-> "record", m |-> t.m, n |-> t.n, xs |-> i[1]], i[2]>>
    [] t.k = "tuple_begin" -> LET i == ParseItems("tuple", r, <<>>) IN <<[k |-> "tuple", m |-> t.m, n |-> t.n, xs |-> i[1]], i[2]>>
    [] t.k = "record_tuple_begin" -> LET i == ParseItems("record_tuple", r, <<>>) IN <<[k |-> "record_tuple", m |-> t.m, n |-> t.n, xs |-> i[1]], i[2]>>
    [] t.k = "tagged_begin" -> LET x == Parse(r) IN <<[k |-> "tagged", m |-> t.m, x |-> x[1]], Tail(x[2])>>
    [] t.k = "enum_begin" ->
         IF Head(SkipHints(r)).k = "enum_end" THEN <<[k |-> "enum", m |-> t.m, xs |-> <<>>], Tail(SkipHints(r))>>
         ELSE LET x == Parse(r) IN <<[k |-> "enum", m |-> t.m, xs |-> <<x[1]>>], Tail(x[2])>>
ParseItems(kind, toks, acc) ==
  LET t == Head(toks) r == Tail(toks) IN
  CASE t.k = "tag_hint" -> ParseItems(kind, r, acc)
    [] t.k = kind \o "_end" -> <<acc, r>>
    [] t.k = "map_key_begin" -> LET x == Parse(r) v == Parse(Tail(Tail(x[2]))) IN
         ParseItems(kind, Tail(v[2]), Append(acc, [key |-> x[1], x |-> v[1]]))
    [] t.k = "seq_value_begin" -> LET x == Parse(r) IN ParseItems(kind, Tail(x[2]), Append(acc, [x |-> x[1]]))
    [] t.k = "record_value_begin" -> LET x == Parse(r) IN ParseItems(kind, Tail(x[2]), Append(acc, [t |-> t.t, lab |-> t.lab, x |-> x[1]]))
    [] t.k = "tuple_value_begin" -> LET x == Parse(r) IN ParseItems(kind, Tail(x[2]), Append(acc, [t |-> t.t, idx |-> t.idx, x |-> x[1]]))
    [] t.k = "record_tuple_value_begin" -> LET x == Parse(r) IN
         ParseItems(kind, Tail(x[2]), Append(acc, [t |-> t.t, lab |-> t.lab, idx |-> t.idx, x |-> x[1]]))
\* Hints do not matter to the tree.
NoHints(toks) == SelectSeq(toks, LAMBDA t : t.k # "tag_hint")
TreeOf(toks) == Parse(NoHints(Flat(toks)))[1]
=============================================================================
