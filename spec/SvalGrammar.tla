---------------------------- MODULE SvalGrammar -----------------------------
(***************************************************************************)
(* The call contract of a stream, as a pushdown automaton.  Step(stack, t) *)
(* is the stack after call t, or Reject.  It is used both to generate      *)
(* behaviours (SvalGen) and to accept recorded ones (TraceStream).         *)
(***************************************************************************)
EXTENDS SvalTokens

Reject == <<>>   \* the call is not allowed here
Frame(k, st) == [k |-> k, st |-> st, n |-> -1, got |-> 0, m |-> NoMeta, cur |-> Null]
FrameN(k, st, n, m) == [k |-> k, st |-> st, n |-> n, got |-> 0, m |-> m, cur |-> Null]
InitStack == <<Frame("root", "val")>>
Top(stack) == stack[Len(stack)]
Below(stack) == SubSeq(stack, 1, Len(stack) - 1)
SetTop(stack, f) == [stack EXCEPT ![Len(stack)] = f]
Done(stack) == Len(stack) = 1 /\ stack[1].st = "done"

\* A frame in one of these states is waiting for a value.
WantsValue(f) == f.st \in {"val", "kval", "vval", "var"}
\* ... for a value that can name an enum variant.
WantsVariant(f) == f.st = "var"
AfterValue(f) ==
  CASE f.k = "root" -> [f EXCEPT !.st = "done"]
    [] f.st = "kval" -> [f EXCEPT !.st = "kclose"]
    [] f.st = "vval" -> [f EXCEPT !.st = "vclose"]
    [] OTHER -> [f EXCEPT !.st = "close"]

ScalarKinds == NumKinds \cup {"null", "bool"}
VariantOpeners == {"tagged_begin", "record_begin", "tuple_begin", "record_tuple_begin", "enum_begin"}
HintOk(f) == f.n = -1 \/ f.n = f.got
Same(a, b) == a.s = b.s /\ a.some = b.some
SameIdx(a, b) == a.v = b.v /\ a.some = b.some
\* Begin and end carry the same metadata.  (Hints attached to labels and
\* indexes are part of the metadata.)
SameMeta(a, b) == a.tag = b.tag /\ Same(a.lab, b.lab) /\ SameIdx(a.idx, b.idx)

Step(stack, t) ==
  IF stack = Reject THEN Reject ELSE
  LET f == Top(stack)
      complete == SetTop(stack, AfterValue(f))            \* a scalar was given
      pop == LET b == Below(stack) IN SetTop(b, AfterValue(Top(b)))
      push(g) == Append(stack, g)
      variantOk == ~WantsVariant(f)
  IN
  CASE t.k = "tag_hint" -> stack
    [] t.k = "v(" ->
         IF WantsValue(f) THEN push(Frame("value", IF WantsVariant(f) THEN "var" ELSE "val")) ELSE Reject
    [] t.k = "v)" -> IF f.k = "value" /\ f.st = "close" THEN pop ELSE Reject
    [] t.k \in ScalarKinds -> IF WantsValue(f) /\ variantOk THEN complete ELSE Reject
    [] t.k = "tag" -> IF WantsValue(f) THEN complete ELSE Reject
    [] t.k = "text_begin" -> IF WantsValue(f) /\ variantOk THEN push(FrameN("text", "frags", t.n, NoMeta)) ELSE Reject
    [] t.k = "text_fragment" ->
         IF f.k = "text"
         THEN SetTop(stack, [f EXCEPT !.got = @ + Utf8Len(t.s)])
         ELSE Reject
    [] t.k = "text_end" -> IF f.k = "text" /\ HintOk(f) THEN pop ELSE Reject
    [] t.k = "binary_begin" -> IF WantsValue(f) /\ variantOk THEN push(FrameN("binary", "frags", t.n, NoMeta)) ELSE Reject
    [] t.k = "binary_fragment" -> IF f.k = "binary" THEN SetTop(stack, [f EXCEPT !.got = @ + Len(t.s)]) ELSE Reject
    [] t.k = "binary_end" -> IF f.k = "binary" /\ HintOk(f) THEN pop ELSE Reject
    [] t.k = "map_begin" -> IF WantsValue(f) /\ variantOk THEN push(FrameN("map", "item", t.n, NoMeta)) ELSE Reject
    [] t.k = "map_key_begin" -> IF f.k = "map" /\ f.st = "item" THEN SetTop(stack, [f EXCEPT !.st = "kval"]) ELSE Reject
    [] t.k = "map_key_end" -> IF f.k = "map" /\ f.st = "kclose" THEN SetTop(stack, [f EXCEPT !.st = "mid"]) ELSE Reject
    [] t.k = "map_value_begin" -> IF f.k = "map" /\ f.st = "mid" THEN SetTop(stack, [f EXCEPT !.st = "vval"]) ELSE Reject
    [] t.k = "map_value_end" -> IF f.k = "map" /\ f.st = "vclose" THEN SetTop(stack, [f EXCEPT !.st = "item", !.got = @ + 1]) ELSE Reject
    [] t.k = "map_end" -> IF f.k = "map" /\ f.st = "item" /\ HintOk(f) THEN pop ELSE Reject
    [] t.k = "seq_begin" -> IF WantsValue(f) /\ variantOk THEN push(FrameN("seq", "item", t.n, NoMeta)) ELSE Reject
    [] t.k = "seq_value_begin" -> IF f.k = "seq" /\ f.st = "item" THEN SetTop(stack, [f EXCEPT !.st = "val"]) ELSE Reject
    [] t.k = "seq_value_end" -> IF f.k = "seq" /\ f.st = "close" THEN SetTop(stack, [f EXCEPT !.st = "item", !.got = @ + 1]) ELSE Reject
    [] t.k = "seq_end" -> IF f.k = "seq" /\ f.st = "item" /\ HintOk(f) THEN pop ELSE Reject
    [] t.k = "enum_begin" -> IF WantsValue(f) THEN push(FrameN("enum", "var", -1, t.m)) ELSE Reject
    \* An enum that is closed without a variant stands for its own tag.
    [] t.k = "enum_end" -> IF f.k = "enum" /\ f.st \in {"var", "close"} /\ SameMeta(f.m, t.m) THEN pop ELSE Reject
    [] t.k = "tagged_begin" -> IF WantsValue(f) THEN push(FrameN("tagged", "val", -1, t.m)) ELSE Reject
    [] t.k = "tagged_end" -> IF f.k = "tagged" /\ f.st = "close" /\ SameMeta(f.m, t.m) THEN pop ELSE Reject
    [] t.k = "record_begin" -> IF WantsValue(f) THEN push(FrameN("record", "item", t.n, t.m)) ELSE Reject
    [] t.k = "record_value_begin" ->
         IF f.k = "record" /\ f.st = "item" THEN SetTop(stack, [f EXCEPT !.st = "val", !.cur = t]) ELSE Reject
    [] t.k = "record_value_end" ->
         IF f.k = "record" /\ f.st = "close" /\ f.cur.t = t.t /\ Same(f.cur.lab, t.lab)
         THEN SetTop(stack, [f EXCEPT !.st = "item", !.got = @ + 1, !.cur = Null]) ELSE Reject
    [] t.k = "record_end" -> IF f.k = "record" /\ f.st = "item" /\ HintOk(f) /\ SameMeta(f.m, t.m) THEN pop ELSE Reject
    [] t.k = "tuple_begin" -> IF WantsValue(f) THEN push(FrameN("tuple", "item", t.n, t.m)) ELSE Reject
    [] t.k = "tuple_value_begin" ->
         IF f.k = "tuple" /\ f.st = "item" THEN SetTop(stack, [f EXCEPT !.st = "val", !.cur = t]) ELSE Reject
    [] t.k = "tuple_value_end" ->
         IF f.k = "tuple" /\ f.st = "close" /\ f.cur.t = t.t /\ SameIdx(f.cur.idx, t.idx)
         THEN SetTop(stack, [f EXCEPT !.st = "item", !.got = @ + 1, !.cur = Null]) ELSE Reject
    [] t.k = "tuple_end" -> IF f.k = "tuple" /\ f.st = "item" /\ HintOk(f) /\ SameMeta(f.m, t.m) THEN pop ELSE Reject
    [] t.k = "record_tuple_begin" -> IF WantsValue(f) THEN push(FrameN("record_tuple", "item", t.n, t.m)) ELSE Reject
    [] t.k = "record_tuple_value_begin" ->
         IF f.k = "record_tuple" /\ f.st = "item"
         THEN SetTop(stack, [f EXCEPT !.st = "val", !.cur = t]) ELSE Reject
    [] t.k = "record_tuple_value_end" ->
         IF f.k = "record_tuple" /\ f.st = "close" /\ f.cur.t = t.t /\ Same(f.cur.lab, t.lab) /\ SameIdx(f.cur.idx, t.idx)
         THEN SetTop(stack, [f EXCEPT !.st = "item", !.got = @ + 1, !.cur = Null]) ELSE Reject
    [] t.k = "record_tuple_end" -> IF f.k = "record_tuple" /\ f.st = "item" /\ HintOk(f) /\ SameMeta(f.m, t.m) THEN pop ELSE Reject
    [] OTHER -> Reject

Steps(stack, toks) == FoldLeft(Step, stack, toks)
Accepts(toks) == LET s == Steps(InitStack, toks) IN s # Reject /\ Done(s)
=============================================================================
