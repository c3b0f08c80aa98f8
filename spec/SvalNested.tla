----------------------------- MODULE SvalNested -----------------------------
(***************************************************************************)
(* The recursive view of a flat token sequence.  A recursive stream gets   *)
(* every container as an object of its own and every child as a value, so  *)
(* what it is shown is a tree; Show writes that tree down again as tokens. *)
(* Tag hints are not shown, record_tuples are records, text and binary are *)
(* whole.                                                                  *)
(***************************************************************************)
EXTENDS SvalBuffer

\* Text and binary in one piece, with its exact size.
RECURSIVE Pieces(_, _, _)
Pieces(toks, cur, out) ==
  IF toks = <<>> THEN out ELSE
  LET t == Head(toks) r == Tail(toks) IN
  CASE t.k \in {"text_begin", "binary_begin"} -> Pieces(r, <<>>, out)
    [] t.k \in {"text_fragment", "binary_fragment"} -> Pieces(r, Append(cur, t), out)
    [] t.k = "text_end" -> LET w == WholeS(cur) IN
         Pieces(r, <<>>, out \o <<TextBegin(Utf8Len(w)), TextFrag(w, Life(cur) = "long"), TextEnd>>)
    [] t.k = "binary_end" -> LET w == WholeS(cur) IN
         Pieces(r, <<>>, out \o <<BinBegin(Len(w)), BinFrag(w, Life(cur) = "long"), BinEnd>>)
    [] OTHER -> Pieces(r, cur, Append(out, t))
Whole(toks) == Pieces(toks, <<>>, <<>>)

ShownGroups == GroupNames \ {"record_tuple", "tag_hint"}
Shown(f) == Whole(Lower(Methods(ShownGroups), f))

-----------------------------------------------------------------------------
(* A recursive stream that implements only what it must: numbers become    *)
(* i64, f64 or text, binary a sequence, tags and tagged values are kept    *)
(* only where they name an enum variant.                                   *)

\* Rename tags in the place of a variant, so that Lower keeps them.
RECURSIVE MarkVariants(_, _, _)
MarkVariants(toks, st, out) ==     \* st: stack of "e" (an enum waiting for its variant), "x", "t" (a marked tagged)
  IF toks = <<>> THEN out ELSE
  LET t == Head(toks) r == Tail(toks)
      want == st # <<>> /\ st[Len(st)] = "e"
      pop == SubSeq(st, 1, Len(st) - 1)
  IN
  CASE t.k = "enum_begin" -> MarkVariants(r, Append(st, "e"), Append(out, t))
    [] t.k = "enum_end" -> MarkVariants(r, pop, Append(out, t))
    [] t.k = "tag" -> MarkVariants(r, st, Append(out, IF want THEN [t EXCEPT !.k = "vtag"] ELSE t))
    [] t.k = "tagged_begin" -> IF want THEN MarkVariants(r, Append(st, "t"), Append(out, [t EXCEPT !.k = "vtagged_begin"]))
                               ELSE MarkVariants(r, Append(st, "x"), Append(out, t))
    [] t.k = "tagged_end" -> IF st[Len(st)] = "t" THEN MarkVariants(r, pop, Append(out, [t EXCEPT !.k = "vtagged_end"]))
                             ELSE MarkVariants(r, pop, Append(out, t))
    [] t.k \in {"record_begin", "tuple_begin", "record_tuple_begin", "seq_begin", "map_begin"} -> MarkVariants(r, Append(st, "x"), Append(out, t))
    [] t.k \in {"record_end", "tuple_end", "record_tuple_end", "seq_end", "map_end"} -> MarkVariants(r, pop, Append(out, t))
    [] OTHER -> MarkVariants(r, st, Append(out, t))
Unmark(t) == CASE t.k = "vtag" -> [t EXCEPT !.k = "tag"] [] t.k = "vtagged_begin" -> [t EXCEPT !.k = "tagged_begin"]
               [] t.k = "vtagged_end" -> [t EXCEPT !.k = "tagged_end"] [] OTHER -> t
MinimalMethods == Methods({"map", "tuple", "record", "enum"}) \cup {"vtag", "vtagged_begin", "vtagged_end"}
Minimal(f) ==
  LET l == Lower(MinimalMethods, MarkVariants(Whole(NoHints(f)), <<>>, <<>>)) IN
  Whole([i \in 1..Len(l) |-> Unmark(l[i])])

-----------------------------------------------------------------------------
(* Which text and binary must stay long-lived: those that do not have to   *)
(* be collected first.  A container inside a container is collected unless *)
(* it is handed over as a value of its own.                                *)
Containers == {"map_begin", "seq_begin", "record_begin", "tuple_begin", "record_tuple_begin", "tagged_begin"}
ContainerEnds == {"map_end", "seq_end", "record_end", "tuple_end", "record_tuple_end", "tagged_end", "enum_end"}
Into(mode, k) ==
  CASE mode = "any" -> IF k = "enum_begin" THEN "enum" ELSE "in"
    [] mode = "enum" -> IF k = "enum_begin" THEN "enum2" ELSE "in"
    [] mode = "enum2" -> IF k = "enum_begin" THEN "enum2" ELSE IF k = "tagged_begin" THEN "in" ELSE "buf"
    [] OTHER -> "buf"
RECURSIVE MustLive(_, _, _, _)
MustLive(toks, st, cur, out) ==
  IF toks = <<>> THEN out ELSE
  LET t == Head(toks) r == Tail(toks) top == st[Len(st)] pop == SubSeq(st, 1, Len(st) - 1) IN
  CASE t.k = "v(" -> MustLive(r, Append(st, IF t.c THEN "buf" ELSE IF top \in {"any", "in"} THEN "any" ELSE top), cur, out)
    [] t.k = "v)" -> MustLive(r, pop, cur, out)
    [] t.k \in Containers \cup {"enum_begin"} -> MustLive(r, Append(st, Into(top, t.k)), cur, out)
    [] t.k \in ContainerEnds -> MustLive(r, pop, cur, out)
    [] t.k \in {"text_begin", "binary_begin"} -> MustLive(r, st, <<>>, out)
    [] t.k \in {"text_fragment", "binary_fragment"} -> MustLive(r, st, Append(cur, t), out)
    [] t.k \in {"text_end", "binary_end"} -> MustLive(r, st, <<>>, Append(out, top \in {"any", "in"} /\ Life(cur) = "long"))
    [] OTHER -> MustLive(r, st, cur, out)

\* Only these can stand for a variant.
IsVariant(f) == NoHints(f)[1].k \in VariantOpeners \cup {"tag"}

-----------------------------------------------------------------------------
(* Without an allocator: what needs nothing to be collected.  The labels   *)
(* are static, each text is one long-lived piece, no container is inside a *)
(* container unless it is handed over as a value, and no enum in an enum.  *)
StaticLabels(toks) == \A i \in 1..Len(toks) : LabelsStatic(toks[i])
RECURSIVE Direct(_, _, _, _)
Direct(toks, st, cur, computed) ==
  IF toks = <<>> THEN TRUE ELSE
  LET t == Head(toks) r == Tail(toks) top == st[Len(st)] pop == SubSeq(st, 1, Len(st) - 1) IN
  CASE t.k = "v(" -> ~t.c /\ Direct(r, Append(st, IF ~computed /\ top \in {"any", "in"} THEN "any" ELSE top), cur, computed)
    [] t.k = "v)" -> Direct(r, pop, cur, computed)
    [] t.k \in Containers \cup {"enum_begin"} ->
         LET to == Into(top, t.k) IN to \notin {"buf", "enum2"} /\ Direct(r, Append(st, to), cur, computed)
    [] t.k \in ContainerEnds -> Direct(r, pop, cur, computed)
    [] t.k \in {"text_begin", "binary_begin"} -> ~computed /\ Direct(r, st, <<>>, computed)
    [] t.k \in {"text_fragment", "binary_fragment"} -> Direct(r, st, Append(cur, t), computed)
    [] t.k \in {"text_end", "binary_end"} -> OneFragment(cur) /\ Direct(r, st, <<>>, computed)
    [] OTHER -> Direct(r, st, cur, computed)
Unbuffered(toks) == StaticLabels(toks) /\ Direct(toks, <<"any">>, <<>>, FALSE)
\* what is computed is never long-lived, and no longer handed over value by value
UnbufferedComputed(toks) == StaticLabels(toks) /\ Direct(toks, <<"any">>, <<>>, TRUE)
UnbufferedVariant(toks) == StaticLabels(toks) /\ Direct(toks, <<"enum">>, <<>>, TRUE)
\* Lowering to the minimal stream may make text out of numbers and tags, which has to be collected.
Texts(toks) == Len(SelectSeq(toks, LAMBDA t : t.k = "text_begin"))
NoNewText(f) == Texts(Minimal(f)) = Texts(f)
=============================================================================
