----------------------------- MODULE SvalBuffer -----------------------------
(***************************************************************************)
(* The value buffer as a machine: a flat list of parts where each begin    *)
(* knows how many parts follow inside it, and a stack of what is open.     *)
(* BufStream walks it again.  The theorems (in GenBuffer) say that this is *)
(* the identity up to how text is cut, and that Complete is exact.         *)
(***************************************************************************)
EXTENDS SvalSem

BufInit == [parts |-> <<>>, stack |-> <<>>, intext |-> FALSE, err |-> FALSE]
BeginKinds == {"map_begin", "map_key_begin", "map_value_begin", "seq_begin", "seq_value_begin", "enum_begin", "tagged_begin",
  "record_begin", "record_value_begin", "tuple_begin", "tuple_value_begin", "record_tuple_begin", "record_tuple_value_begin"}
EndKinds == {"map_end", "map_key_end", "map_value_end", "seq_end", "seq_value_end", "enum_end", "tagged_end",
  "record_end", "record_value_end", "tuple_end", "tuple_value_end", "record_tuple_end", "record_tuple_value_end"}
Part(t, e) == [t |-> t, len |-> 0, fs |-> <<>>, e |-> e]
BufStep(b, t) ==
  IF b.err THEN b ELSE
  CASE t.k = "tag_hint" -> IF b.intext THEN b ELSE [b EXCEPT !.parts = Append(@, Part(t, t))]
    [] t.k \in ScalarKinds \cup {"tag"} -> [b EXCEPT !.parts = Append(@, Part(t, t))]
    [] t.k \in {"text_begin", "binary_begin"} -> [b EXCEPT !.parts = Append(@, Part(t, t)), !.intext = TRUE]
    [] t.k \in {"text_fragment", "binary_fragment"} ->
         IF b.parts # <<>> /\ b.parts[Len(b.parts)].t.k = (IF t.k = "text_fragment" THEN "text_begin" ELSE "binary_begin")
         THEN [b EXCEPT !.parts[Len(b.parts)].fs = Append(@, t)] ELSE [b EXCEPT !.err = TRUE]
    [] t.k \in {"text_end", "binary_end"} -> [b EXCEPT !.intext = FALSE]
    [] t.k \in BeginKinds -> [b EXCEPT !.stack = Append(@, Len(b.parts) + 1), !.parts = Append(@, Part(t, t))]
    [] t.k \in EndKinds ->
         IF b.stack = <<>> THEN [b EXCEPT !.err = TRUE]
         ELSE LET i == b.stack[Len(b.stack)] IN
              [b EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.parts[i].len = Len(b.parts) - i, !.parts[i].e = t]
Collect(toks) == FoldLeft(BufStep, BufInit, toks)
Complete_(b) == b.stack = <<>> /\ ~b.intext /\ \E i \in 1..Len(b.parts) : b.parts[i].t.k # "tag_hint"

\* The end that matches a begin: the buffer keeps only what was given at the begin.
EndOf(t) ==
  CASE t.k = "map_begin" -> MapEnd [] t.k = "map_key_begin" -> MapKeyEnd [] t.k = "map_value_begin" -> MapValueEnd
    [] t.k = "seq_begin" -> SeqEnd [] t.k = "seq_value_begin" -> SeqValueEnd
    [] t.k = "enum_begin" -> EnumEnd(t.m) [] t.k = "tagged_begin" -> TaggedEnd(t.m) [] t.k = "record_begin" -> RecordEnd(t.m)
    [] t.k = "record_value_begin" -> RecordValueEnd(t.t, t.lab) [] t.k = "tuple_begin" -> TupleEnd(t.m)
    [] t.k = "tuple_value_begin" -> TupleValueEnd(t.t, t.idx) [] t.k = "record_tuple_begin" -> RecordTupleEnd(t.m)
    [] t.k = "record_tuple_value_begin" -> RecordTupleValueEnd(t.t, t.lab, t.idx)
\* long: a single long-lived piece; short: nothing long-lived to hand out; any: either
Life(fs) ==
  LET full == SelectSeq(fs, LAMBDA f : f.s # <<>>) IN
  IF Len(fs) = 1 /\ fs[1].b THEN "long"
  ELSE IF Len(full) = 0 \/ (Len(full) = 1 /\ full[1].b) THEN "any" ELSE "short"
RECURSIVE BufStream(_)
BufStream(parts) ==
  IF parts = <<>> THEN <<>> ELSE
  LET p == Head(parts) body == SubSeq(parts, 2, p.len + 1) rest == SubSeq(parts, p.len + 2, Len(parts)) IN
  (CASE p.t.k \in {"text_begin", "binary_begin"} ->
          LET w == WholeS(p.fs) IN
          <<[p.t EXCEPT !.n = IF p.t.k = "text_begin" THEN Utf8Len(w) ELSE Len(w)]>>
          \o (IF w = <<>> THEN <<>> ELSE <<[k |-> IF p.t.k = "text_begin" THEN "text_fragment" ELSE "binary_fragment", s |-> w, b |-> Life(p.fs) = "long"]>>)
          \o <<IF p.t.k = "text_begin" THEN TextEnd ELSE BinEnd>>
     [] p.t.k \in BeginKinds -> <<p.t>> \o BufStream(body) \o <<EndOf(p.t)>>
     [] OTHER -> <<p.t>>) \o BufStream(rest)
Lives(parts) == LET ts == SelectSeq(parts, LAMBDA p : p.t.k \in {"text_begin", "binary_begin"}) IN [i \in 1..Len(ts) |-> Life(ts[i].fs)]

-----------------------------------------------------------------------------
(* Collecting one text or binary *)
TextMethods == Methods({"text_fragment"})
BinMethods == Methods({"binary", "binary_fragment", "u8"}) \cup {"map_begin"}
Refused(l, kinds) == \E i \in 1..Len(l) : l[i].k \in kinds
AsText(f) == LET l == Lower(TextMethods, f) IN
  [ok |-> ~Refused(l, {"null", "bool", "i64", "f64", "seq_begin"}),
   s |-> Flatten([i \in 1..Len(l) |-> IF l[i].k = "text_fragment" THEN l[i].s ELSE <<>>])]
AsBin(f) ==
  \* a map is refused, whatever it would have been lowered to
  LET l == Lower(BinMethods, f) IN
  [ok |-> ~Refused(l, {"null", "bool", "i64", "f64", "text_begin", "map_begin"}),
   s |-> Flatten([i \in 1..Len(l) |-> IF l[i].k = "binary_fragment" THEN l[i].s ELSE IF l[i].k = "u8" THEN <<l[i].v>> ELSE <<>>])]

-----------------------------------------------------------------------------
(* Without an allocator.  A fragment buffer can keep one long-lived        *)
(* fragment, and a value buffer one part; whatever needs more may be       *)
(* refused, but not lost.                                                  *)
OneFragment(fs) == Len(fs) <= 1 /\ \A i \in 1..Len(fs) : fs[i].b
LabelsStatic(t) ==
  /\ t.k \in {"record_value_begin", "record_tuple_value_begin"} => t.lab.st
  /\ "m" \in DOMAIN t => (t.m.lab.some => t.m.lab.st)
NoBufferNeeded(b) == Len(b.parts) = 1 /\ OneFragment(b.parts[1].fs) /\ LabelsStatic(b.parts[1].t)
\* A fragment that is refused changes nothing; this one may not be refused.
MustTake(held, f) == held = <<>> /\ f.b
=============================================================================
