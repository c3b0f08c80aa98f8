------------------------------ MODULE SvalJson ------------------------------
(***************************************************************************)
(* JSON: what document a tree stands for (Json), and the streaming writer  *)
(* that produces it one call at a time with only a few flags of state      *)
(* (Write).  TLC checks that the two agree (WriterAgrees in GenJson).      *)
(***************************************************************************)
EXTENDS SvalSem

JNull == [j |-> "null"]
JErr == [j |-> "err"]              \* a map key that JSON cannot express
IsErr(x) == x.j = "err"
NonFinite == {"NaN", "inf", "-inf"}
JScalar(t) ==
  CASE t.k = "null" -> JNull
    [] t.k = "bool" -> [j |-> "bool", v |-> t.v]
    [] t.k \in IntKinds -> [j |-> "int", v |-> t.v]
    [] t.k \in FloatKinds -> IF t.v \in NonFinite THEN JNull ELSE [j |-> t.k, v |-> t.v]
JStr(s) == [j |-> "str", s |-> s]
JIdx(i) == i.some /\ FitsI64(i.v)
JTag(m) ==
  IF m.tag = NoneTag THEN JNull
  ELSE IF m.lab.some THEN JStr(m.lab.s)
  ELSE IF JIdx(m.idx) THEN [j |-> "int", v |-> m.idx.v] ELSE JNull
Named(m) == m.lab.some \/ JIdx(m.idx)
\* A value in variant position is wrapped in an object with its name.
Variant(vp, m, x) ==
  IF ~vp \/ ~Named(m) \/ IsErr(x) THEN x
  ELSE [j |-> "obj", xs |-> <<[key |-> IF m.lab.some THEN JStr(m.lab.s) ELSE [j |-> "int", v |-> m.idx.v], x |-> x]>>]
\* Number texts that are not numbers.
LowerCp(c) == IF c \in 65..90 THEN c + 32 ELSE c
NotANumber(s) == \E i \in 1..Len(s) : LowerCp(s[i]) \in {115, 110, 105}  \* s, n, i
JNumber(s) == IF NotANumber(s) THEN JNull ELSE [j |-> "dec", s |-> s]
Special(tag) == tag \in {NumberTag, JsonValueTag, JsonTextTag, JsonNumberTag}
JSpecial(tag, s) ==
  CASE tag = NumberTag -> JNumber(s)
    [] tag = JsonNumberTag -> [j |-> "dec", s |-> s]
    [] tag = JsonValueTag -> [j |-> "raw", s |-> s]
    [] tag = JsonTextTag -> [j |-> "rawstr", s |-> s]

RECURSIVE Json(_, _), JKey(_, _)
Json(n, vp) ==
  LET items(f(_)) == [i \in 1..Len(n.xs) |-> f(n.xs[i])]
      arr(xs) == IF \E i \in 1..Len(xs) : IsErr(xs[i]) THEN JErr ELSE [j |-> "arr", xs |-> xs]
      obj(xs) == IF \E i \in 1..Len(xs) : IsErr(xs[i].key) \/ IsErr(xs[i].x) THEN JErr ELSE [j |-> "obj", xs |-> xs]
  IN
  CASE n.k \in ScalarKinds -> JScalar(n)
    [] n.k = "text" -> JStr(n.s)
    [] n.k = "binary" -> [j |-> "arr", xs |-> [i \in 1..Len(n.s) |-> [j |-> "int", v |-> ToString(n.s[i])]]]
    [] n.k = "tag" -> JTag(n.m)
    [] n.k = "seq" -> arr(items(LAMBDA e : Json(e.x, FALSE)))
    [] n.k = "map" -> obj(items(LAMBDA e : [key |-> JKey(e.key, FALSE), x |-> Json(e.x, FALSE)]))
    [] n.k \in {"record", "record_tuple"} -> Variant(vp, n.m, obj(items(LAMBDA e : [key |-> JStr(e.lab.s), x |-> Json(e.x, FALSE)])))
    [] n.k = "tuple" -> Variant(vp, n.m, arr(items(LAMBDA e : Json(e.x, FALSE))))
    [] n.k = "tagged" -> Variant(vp, n.m, IF Special(n.m.tag) /\ n.x.k = "text" THEN JSpecial(n.m.tag, n.x.s) ELSE Json(n.x, FALSE))
    [] n.k = "enum" -> Variant(vp, n.m, IF n.xs = <<>> THEN JTag(n.m) ELSE Json(n.xs[1], TRUE))
JKey(n, vp) ==
  CASE n.k \in ScalarKinds -> JScalar(n)
    [] n.k = "text" -> JStr(n.s)
    [] n.k = "tag" -> JTag(n.m)
    [] n.k = "tagged" -> IF vp /\ Named(n.m) THEN JErr
                         ELSE IF Special(n.m.tag) /\ n.x.k = "text" THEN JSpecial(n.m.tag, n.x.s) ELSE JKey(n.x, FALSE)
    [] n.k = "enum" -> IF vp /\ Named(n.m) THEN JErr ELSE IF n.xs = <<>> THEN JTag(n.m) ELSE JKey(n.xs[1], TRUE)
    [] OTHER -> JErr
JsonOf(toks) == Json(TreeOf(toks), FALSE)

-----------------------------------------------------------------------------
(* A document as the symbols that are written.  Text symbols carry code    *)
(* points ([c |-> ...]); adjacent ones are one text.                       *)

Ch(s) == [c |-> s]
P(p) == [p |-> p]
\* The same scalar as it is written (inside the quotes of a key or not).
ScalarSyms(x) ==
  CASE x.j = "null" -> <<P("null")>>
    [] x.j = "bool" -> <<P(IF x.v THEN "true" ELSE "false")>>
    [] x.j = "int" -> <<P(x.v)>>
    [] x.j \in FloatKinds -> <<P(x.j \o x.v)>>
    [] x.j = "dec" -> <<P("num"), Ch(x.s)>>
    [] x.j = "raw" -> <<P("raw"), Ch(x.s)>>
RECURSIVE Render(_)
Render(x) ==
  CASE x.j = "str" -> <<P("\""), Ch(x.s), P("\"")>>
    [] x.j = "rawstr" -> <<P("\""), P("raw"), Ch(x.s), P("\"")>>
    [] x.j = "arr" -> <<P("[")>> \o Flatten([i \in 1..Len(x.xs) |-> (IF i > 1 THEN <<P(",")>> ELSE <<>>) \o Render(x.xs[i])]) \o <<P("]")>>
    [] x.j = "obj" ->
         <<P("{")>> \o Flatten([i \in 1..Len(x.xs) |->
            (IF i > 1 THEN <<P(",")>> ELSE <<>>) \o <<P("\"")>>
            \o (LET k == x.xs[i].key IN CASE k.j = "str" -> <<Ch(k.s)>> [] k.j = "rawstr" -> <<P("raw"), Ch(k.s)>> [] OTHER -> ScalarSyms(k))
            \o <<P("\":")>> \o Render(x.xs[i].x)]) \o <<P("}")>>
    [] OTHER -> ScalarSyms(x)
\* Without empty texts and with adjacent texts merged.
RECURSIVE Tidy(_)
Tidy(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET h == Head(s) IN
  IF "c" \in DOMAIN h /\ h.c = <<>> THEN Tidy(Tail(s))
  ELSE IF Len(s) > 1 /\ "c" \in DOMAIN h /\ "c" \in DOMAIN s[2] THEN Tidy(<<Ch(h.c \o s[2].c)>> \o SubSeq(s, 3, Len(s)))
  ELSE <<h>> \o Tidy(Tail(s))

-----------------------------------------------------------------------------
(* The writer, as a state machine over calls.                              *)
(*   it: the next named value is in variant position                       *)
(*   em: nothing was written yet at this depth                             *)
(*   qt: texts are quoted here (not so in keys and raw texts)              *)
(*   th: how fragments are written: "esc", "raw", "num", or "skip" after   *)
(*       a text that turned out not to be a number                         *)

WInit == [it |-> FALSE, em |-> TRUE, qt |-> TRUE, th |-> "esc", out |-> <<>>, err |-> FALSE]
Put(w, s) == [w EXCEPT !.out = @ \o s]
Fill(w) == [w EXCEPT !.em = FALSE]
Fail(w) == [w EXCEPT !.err = TRUE]

WMapBegin(w) == IF ~w.qt THEN Fail(w) ELSE [Put(w, <<P("{")>>) EXCEPT !.em = TRUE]
WSeqBegin(w) == IF ~w.qt THEN Fail(w) ELSE [Put(w, <<P("[")>>) EXCEPT !.em = TRUE]
WKeyBegin(w) == [Put(w, IF w.em THEN <<P("\"")>> ELSE <<P(","), P("\"")>>) EXCEPT !.it = FALSE, !.qt = FALSE]
\* A key may leave the variant flag set; the value that follows is not a variant.
WKeyEnd(w) == [Put(w, <<P("\":")>>) EXCEPT !.qt = TRUE, !.it = FALSE]
WMapEnd(w) == Fill(Put(w, <<P("}")>>))
WSeqEnd(w) == Fill(Put(w, <<P("]")>>))
\* Open the wrapper object of a named variant.
WNamedBegin(w, m) ==
  IF ~w.it THEN w
  ELSE LET v == [w EXCEPT !.it = FALSE] IN
       IF ~Named(m) THEN v
       ELSE LET a == WMapBegin(v) IN
            IF a.err THEN a
            ELSE WKeyEnd(Put(WKeyBegin(a), IF m.lab.some THEN <<Ch(m.lab.s)>> ELSE <<P(m.idx.v)>>))
WNamedEnd(w, m) == [w EXCEPT !.it = Named(m)]
WTag(w, m) ==
  LET v == [w EXCEPT !.it = FALSE, !.em = FALSE] IN
  IF m.tag = NoneTag THEN Put(v, <<P("null")>>)
  ELSE IF m.lab.some THEN Put(v, IF v.qt THEN <<P("\""), Ch(m.lab.s), P("\"")>> ELSE <<Ch(m.lab.s)>>)
  ELSE IF JIdx(m.idx) THEN Put(v, <<P(m.idx.v)>>) ELSE Put(v, <<P("null")>>)
WFrag(w, s) ==
  CASE w.th = "num" /\ NotANumber(s) -> [Put(w, <<P("null")>>) EXCEPT !.th = "skip"]
    [] w.th = "skip" -> w
    [] OTHER -> Put(w, <<Ch(s)>>)

\* One call.  b is the token, calls a stream may leave out come lowered.
WStep(w, t) ==
  IF w.err THEN w ELSE
  CASE t.k \in ScalarKinds -> Fill(Put(w, ScalarSyms(JScalar(t))))
    [] t.k = "text_begin" -> LET v == Fill(w) IN
         IF v.qt THEN Put(v, IF v.th = "raw" THEN <<P("\""), P("raw")>> ELSE <<P("\"")>>) ELSE IF v.th = "raw" THEN Put(v, <<P("raw")>>) ELSE v
    [] t.k = "text_fragment" -> WFrag(w, t.s)
    [] t.k = "text_end" -> IF w.qt THEN Put(w, <<P("\"")>>) ELSE w
    [] t.k = "map_begin" -> WMapBegin(w)
    [] t.k = "map_key_begin" -> WKeyBegin(w)
    [] t.k = "map_key_end" -> WKeyEnd(w)
    [] t.k \in {"map_value_begin", "map_value_end", "seq_value_end", "tuple_value_end", "record_value_end", "tag_hint"} -> w
    [] t.k = "map_end" -> WMapEnd(w)
    [] t.k = "seq_begin" -> WSeqBegin(w)
    [] t.k \in {"seq_value_begin", "tuple_value_begin"} -> LET v == [w EXCEPT !.it = FALSE] IN IF w.em THEN v ELSE Put(v, <<P(",")>>)
    [] t.k = "seq_end" -> WSeqEnd(w)
    [] t.k = "tag" -> WTag(w, t.m)
    [] t.k = "enum_begin" -> LET v == WNamedBegin(w, t.m) IN [v EXCEPT !.it = TRUE, !.em = TRUE]
    [] t.k = "enum_end" ->
         LET v == IF w.em THEN WTag(w, t.m) ELSE w
             u == IF v.it THEN WMapEnd(v) ELSE v IN
         WNamedEnd(u, t.m)
    [] t.k = "tagged_begin" ->
         LET v == WNamedBegin(w, t.m) IN
         CASE t.m.tag = JsonTextTag -> [v EXCEPT !.th = "raw", !.em = TRUE]
           [] t.m.tag \in {JsonValueTag, JsonNumberTag} -> [v EXCEPT !.th = "raw", !.qt = FALSE, !.em = TRUE]
           [] t.m.tag = NumberTag -> [Put(v, <<P("num")>>) EXCEPT !.th = "num", !.qt = FALSE, !.em = TRUE]
           [] OTHER -> [v EXCEPT !.em = TRUE]
    [] t.k = "tagged_end" ->
         LET v == CASE t.m.tag = JsonTextTag -> [w EXCEPT !.th = "esc"]
                    [] t.m.tag \in {JsonValueTag, JsonNumberTag, NumberTag} -> [w EXCEPT !.th = "esc", !.qt = TRUE]
                    [] OTHER -> w IN
         WNamedEnd(v, t.m)
    [] t.k = "record_begin" -> WMapBegin(WNamedBegin(w, t.m))
    [] t.k = "record_value_begin" -> LET v == [w EXCEPT !.it = FALSE] IN
         Put(v, (IF v.em THEN <<P("\"")>> ELSE <<P(","), P("\"")>>) \o <<Ch(t.lab.s), P("\":")>>)
    [] t.k = "record_end" -> WNamedEnd(WMapEnd(w), t.m)
    [] t.k = "tuple_begin" -> WSeqBegin(WNamedBegin(w, t.m))
    [] t.k = "tuple_end" -> WNamedEnd(WSeqEnd(w), t.m)
\* The methods the writer implements itself.
WMethods == Methods({"map", "record", "tuple", "enum", "tagged", "tag",
                     "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i128", "f32"})
Write(toks) == FoldLeft(WStep, WInit, Lower(WMethods, Flat(toks)))
\* The number markers say how the text that follows is written; a number that
\* turned out not to be one leaves only null.
RECURSIVE FixNum(_)
FixNum(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) = P("num") /\ Len(s) > 1 /\ s[2] = P("null") THEN FixNum(Tail(s))
  ELSE IF Head(s) = P("raw") /\ Len(s) > 1 /\ "c" \in DOMAIN s[2] THEN <<P("raw"), s[2]>> \o FixNum(SubSeq(s, 3, Len(s)))
  ELSE <<Head(s)>> \o FixNum(Tail(s))
\* JSON numbers and values are both written as they are.
RawDec(s) == [i \in 1..Len(s) |-> IF s[i] = P("num") THEN P("raw") ELSE s[i]]
=============================================================================
