---------------------------- MODULE SvalFlatten -----------------------------
(***************************************************************************)
(* Flattening: the entries of a value, and what they look like as entries  *)
(* of a map, a sequence, a record, a tuple, or a record tuple.             *)
(***************************************************************************)
EXTENDS SvalSem

Targets == {"map", "seq", "record", "tuple", "record_tuple"}

\* One more, for numbers as text.
RECURSIVE Inc(_), Plus(_, _)
Inc(v) ==
  IF v = "-1" THEN "0"
  ELSE IF v = "" THEN "1"
  ELSE LET d == DigitVal[ChAt(v, Len(v))] h == SubSeq(v, 1, Len(v) - 1) IN
       IF d = 9 THEN Inc(h) \o "0" ELSE h \o Digits[d + 2]
Plus(v, n) == IF n = 0 THEN v ELSE Plus(Inc(v), n - 1)
IsIsize(i) == FitsI64(i.v)

-----------------------------------------------------------------------------
(* The tokens of the value at the front, with the hints before it.         *)
Segment(toks) == SubSeq(toks, 1, Len(toks) - Len(Parse(toks)[2]))
After(toks, seg, n) == SubSeq(toks, Len(seg) + n + 1, Len(toks))

Entry(src, t, l, i, key, body) == [e |-> TRUE, src |-> src, t |-> t, lab |-> l, idx |-> i, key |-> key, body |-> body]
Between(t) == [e |-> FALSE, hint |-> t]

RECURSIVE Items(_, _), Entries(_), VariantEntries(_)
Items(kind, toks) ==
  LET t == Head(toks) r == Tail(toks) IN
  CASE t.k = "tag_hint" -> <<Between(t)>> \o Items(kind, r)
    [] t.k = kind \o "_end" -> <<>>
    [] t.k = "map_key_begin" ->
         LET k == Segment(r) v == After(r, k, 2) b == Segment(v) IN
         <<Entry(kind, NoTag, NoLab, NoIdx, k, b)>> \o Items(kind, After(v, b, 1))
    [] OTHER ->
         LET b == Segment(r) IN
         <<Entry(kind, IF kind = "seq" THEN NoTag ELSE t.t, IF kind \in {"record", "record_tuple"} THEN t.lab ELSE NoLab,
                 IF kind \in {"tuple", "record_tuple"} THEN t.idx ELSE NoIdx, <<>>, b)>>
         \o Items(kind, After(r, b, 1))
\* What has no entries is ignored; tagged values are seen through.
Entries(toks) ==
  LET t == Head(toks) r == Tail(toks) IN
  CASE t.k \in {"tag_hint", "tagged_begin"} -> Entries(r)
    [] t.k = "enum_begin" -> VariantEntries(r)
    [] t.k = "map_begin" -> Items("map", r)
    [] t.k = "seq_begin" -> Items("seq", r)
    [] t.k = "record_begin" -> Items("record", r)
    [] t.k = "tuple_begin" -> Items("tuple", r)
    [] t.k = "record_tuple_begin" -> Items("record_tuple", r)
    [] OTHER -> <<>>
\* A variant holding one value is an entry; one holding many has entries.
VariantEntries(toks) ==
  LET t == Head(toks) r == Tail(toks) IN
  CASE t.k = "tagged_begin" -> <<Entry("variant", NoTag, t.m.lab, t.m.idx, <<>>, Segment(r))>>
    [] t.k \in {"tag_hint", "enum_begin"} -> VariantEntries(r)
    [] t.k = "enum_end" -> <<>>
    [] OTHER -> Entries(toks)

-----------------------------------------------------------------------------
AsciiCps(v) == CASE v = "null" -> <<110, 117, 108, 108>> [] v = "true" -> <<116, 114, 117, 101>> [] v = "false" -> <<102, 97, 108, 115, 101>>
                 [] v = "1.5" -> <<49, 46, 53>> [] v = "NaN" -> <<78, 97, 78>> [] v = "inf" -> <<105, 110, 102>> [] v = "-inf" -> <<45, 105, 110, 102>>
                 [] v = "0.1" -> <<48, 46, 49>> [] OTHER -> DecCps(v)
\* Floats whose text is not in doubt.
KeyFloats == {"1.5", "NaN", "inf", "-inf", "0.1"}
KeyMethods == Methods({"tag", "text_fragment", "u64", "u128", "i128"})
KeyPiece(t) ==
  CASE t.k = "null" -> AsciiCps("null")
    [] t.k = "bool" -> AsciiCps(IF t.v THEN "true" ELSE "false")
    [] t.k \in NumKinds -> AsciiCps(t.v)
    [] t.k = "text_fragment" -> t.s
    [] t.k = "tag" -> IF t.m.lab.some THEN t.m.lab.s ELSE IF t.m.idx.some THEN DecCps(t.m.idx.v) ELSE AsciiCps("null")
    [] OTHER -> <<>>
\* Everything in a key as one text.
KeyText(key) == LET l == Lower(KeyMethods, key) IN Flatten([i \in 1..Len(l) |-> KeyPiece(l[i])])
KeyTextKnown(key) == \A i \in 1..Len(key) : key[i].k \in FloatKinds => key[i].v \in KeyFloats /\ (key[i].k = "f32" => key[i].v # "0.1")

\* The position of an entry: its own if it has one, moved if it is an offset.
IndexOf(e, start, cur) ==
  IF ~e.idx.some THEN Idx(cur, TRUE)
  ELSE IF e.idx.off /\ IsIsize(e.idx) THEN Idx(Plus(e.idx.v, start), TRUE)
  ELSE e.idx
NextOf(i, cur) == IF IsIsize(i) THEN Inc(i.v) ELSE Inc(cur)
LabelOf(e, i) ==
  CASE e.lab.some -> e.lab
    [] e.src = "map" -> Lab(KeyText(e.key), FALSE, FALSE)
    [] OTHER -> Lab(DecCps(i.v), FALSE, FALSE)

OneEntry(target, e, i) ==
  LET l == LabelOf(e, i) IN
  CASE target = "record" -> <<RecordValueBegin(e.t, l)>> \o e.body \o <<RecordValueEnd(e.t, l)>>
    [] target = "tuple" -> <<TupleValueBegin(e.t, i)>> \o e.body \o <<TupleValueEnd(e.t, i)>>
    [] target = "record_tuple" -> <<RecordTupleValueBegin(e.t, l, i)>> \o e.body \o <<RecordTupleValueEnd(e.t, l, i)>>
    [] target = "seq" -> <<SeqValueBegin>> \o e.body \o <<SeqValueEnd>>
    [] target = "map" -> <<MapKeyBegin>> \o (IF e.src = "map" THEN e.key ELSE LabelText(l))
                         \o <<MapKeyEnd, MapValueBegin>> \o e.body \o <<MapValueEnd>>
RECURSIVE Lay(_, _, _, _, _)
Lay(target, es, start, cur, out) ==   \* [toks, next]
  IF es = <<>> THEN [toks |-> out, next |-> cur]
  ELSE LET e == Head(es) IN
       IF ~e.e THEN Lay(target, Tail(es), start, cur, Append(out, e.hint))
       ELSE LET i == IndexOf(e, start, cur) IN
            Lay(target, Tail(es), start, NextOf(i, cur), out \o OneEntry(target, e, i))
\* The entries of a value as entries of the target, from position start on.
FlattenTo(target, toks, start) == Lay(target, Entries(Flat(toks)), start, ToString(start), <<>>)

-----------------------------------------------------------------------------
(* A whole value around it: one entry before, one entry after.             *)
OwnEntry(target, s, n, body) ==
  OneEntry(target, Entry("record", NoTag, Lab(s, TRUE, FALSE), NoIdx, <<>>, body), Idx(n, TRUE))
OpenOf(target) == CASE target = "map" -> MapBegin(-1) [] target = "seq" -> SeqBegin(-1) [] target = "record" -> RecordBegin(NoMeta, -1)
                    [] target = "tuple" -> TupleBegin(NoMeta, -1) [] target = "record_tuple" -> RecordTupleBegin(NoMeta, -1)
CloseOf(target) == CASE target = "map" -> MapEnd [] target = "seq" -> SeqEnd [] target = "record" -> RecordEnd(NoMeta)
                     [] target = "tuple" -> TupleEnd(NoMeta) [] target = "record_tuple" -> RecordTupleEnd(NoMeta)
Around(target, toks) ==
  LET f == FlattenTo(target, toks, 1) IN
  <<OpenOf(target)>> \o OwnEntry(target, <<97>>, "0", <<Bool(TRUE)>>) \o f.toks
  \o OwnEntry(target, <<100>>, f.next, <<Bool(FALSE)>>) \o <<CloseOf(target)>>

-----------------------------------------------------------------------------
(* Without an allocator: a key becomes a label without being collected if  *)
(* it is a number or one long-lived piece of text.                         *)
EasyKey(key) ==
  \/ Len(key) = 1 /\ key[1].k \in IntKinds
  \/ Len(key) = 3 /\ key[1].k = "text_begin" /\ key[2].k = "text_fragment" /\ key[2].b /\ key[3].k = "text_end"
EasyKeys(toks) == LET es == Entries(toks) IN \A i \in 1..Len(es) : (es[i].e /\ es[i].src = "map") => EasyKey(es[i].key)
HasLabels(target) == target \in {"record", "record_tuple"}
EasyFlatten(target, toks) == HasLabels(target) => EasyKeys(Flat(toks))
EasyTwice(p, toks) == EasyFlatten(p[1], toks) /\ (HasLabels(p[2]) => p[1] # "map")
=============================================================================
