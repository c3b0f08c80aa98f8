----------------------------- MODULE SvalDerive -----------------------------
(***************************************************************************)
(* Deriving: a declaration is a base shape and a set of attributes put on  *)
(* its container, variants and fields; the specification says whether it   *)
(* is accepted, and the calls each of its values makes.                    *)
(*                                                                         *)
(* An attribute is [v, p, a]: on the container (0, 0), on variant v (v, 0),*)
(* on field p of the struct (0, p) or of variant v (v, p).                 *)
(***************************************************************************)
EXTENDS SvalFlatten, SvalCast

Shape(s, n) == [shape |-> s, n |-> n]
\* structs have one body, number 0; enums have bodies 1, 2, ...
Bases == [
  unit |-> Shape("unit", 0), newtype |-> Shape("newtype", 1),
  named0 |-> Shape("named", 0), named1 |-> Shape("named", 1), named2 |-> Shape("named", 2), named3 |-> Shape("named", 3), named4 |-> Shape("named", 4),
  named300 |-> Shape("named", 300), unnamed300 |-> Shape("unnamed", 300),
  unnamed0 |-> Shape("unnamed", 0), unnamed2 |-> Shape("unnamed", 2), unnamed3 |-> Shape("unnamed", 3), unnamed4 |-> Shape("unnamed", 4)]
Enums == [
  mixed |-> <<Shape("unit", 0), Shape("newtype", 1), Shape("named", 2), Shape("unnamed", 2)>>,
  \* more variants, and more fields, than a small counter holds
  units300 |-> [i \in 1..300 |-> Shape("unit", 0)],
  wide20 |-> <<Shape("unit", 0), Shape("named", 20), Shape("unnamed", 40), Shape("newtype", 1)>>,
  units |-> <<Shape("unit", 0), Shape("unit", 0), Shape("unit", 0)>>,
  named |-> <<Shape("named", 1), Shape("unit", 0), Shape("named", 3)>>,
  unnamed |-> <<Shape("newtype", 1), Shape("unnamed", 3), Shape("unnamed", 0)>>]
IsEnum(b) == b \in DOMAIN Enums
BodyOf(b, v) == IF v = 0 THEN Bases[b] ELSE Enums[b][v]
BodyNos(b) == IF IsEnum(b) THEN 1..Len(Enums[b]) ELSE {0}

\* The names a declaration uses, as written and as labels.
N(rs, cps) == [rs |-> rs, cps |-> cps]
TyNames == <<N("Ty", <<84, 121>>), N("r#match", <<109, 97, 116, 99, 104>>), N("Option", <<79, 112, 116, 105, 111, 110>>)>>
FieldNames == << <<N("a", <<97>>), N("b", <<98>>), N("c", <<99>>), N("d", <<100>>)>>,
                 <<N("r#type", <<116, 121, 112, 101>>), N("stream", <<115, 116, 114, 101, 97, 109>>), N("index", <<105, 110, 100, 101, 120>>), N("_x", <<95, 120>>)>>,
                 <<N("field1", <<102, 105, 101, 108, 100, 49>>), N("field0", <<102, 105, 101, 108, 100, 48>>), N("label", <<108, 97, 98, 101, 108>>), N("tag", <<116, 97, 103>>)>> >>
VariantNames == << <<N("Aa", <<65, 97>>), N("Bb", <<66, 98>>), N("Cc", <<67, 99>>), N("Dd", <<68, 100>>)>>,
                   <<N("r#type", <<116, 121, 112, 101>>), N("None", <<78, 111, 110, 101>>), N("Ok", <<79, 107>>), N("Some", <<83, 111, 109, 101>>)>>,
                   <<N("Z", <<90>>), N("Y", <<89>>), N("X", <<88>>), N("W", <<87>>)>> >>
FieldName(pool, p) == IF p <= 4 THEN FieldNames[pool][p] ELSE N("f" \o ToString(p), <<102>> \o DecCps(ToString(p)))
VariantName(pool, v) == IF v <= 4 THEN VariantNames[pool][v] ELSE N("V" \o ToString(v), <<86>> \o DecCps(ToString(v)))
Pool(seed) == (seed % 3) + 1

\* The types of fields and what their values stream.
Txt(s) == <<TextBegin(Utf8Len(s)), TextFrag(s, TRUE), TextEnd>>
Ident(s) == Lab(s, TRUE, TRUE)
Nth(i) == Idx(ToString(i), TRUE)
OneMeta(l) == Meta(NoTag, Ident(l), NoIdx)
U8(n) == <<Num("u8", ToString(n))>>
Seq2(a, b) == <<SeqBegin(2), SeqValueBegin>> \o a \o <<SeqValueEnd, SeqValueBegin>> \o b \o <<SeqValueEnd, SeqEnd>>
InnerMeta == OneMeta(<<73, 110, 110, 101, 114>>)
PairMeta == OneMeta(<<80, 97, 105, 114>>)
VarMeta == OneMeta(<<86, 97, 114>>)
VarB == Meta(NoTag, Ident(<<66>>), Nth(1))
SomeM == Meta(SomeTag, Lab(<<83, 111, 109, 101>>, TRUE, TRUE), Idx("1", TRUE))
NoneM == Meta(NoneTag, Lab(<<78, 111, 110, 101>>, TRUE, TRUE), Idx("0", TRUE))
ConstM == Meta(ConstTag, NoLab, NoIdx)
FieldTypes == [
  i32 |-> <<Num("i32", "-5")>>,
  str |-> Txt(<<104, 233>>),
  some |-> <<TaggedBegin(SomeM), Bool(TRUE), TaggedEnd(SomeM)>>,
  none |-> <<TagTok(NoneM)>>,
  vec |-> Seq2(U8(1), U8(2)),
  map |-> <<MapBegin(2), MapKeyBegin>> \o U8(1) \o <<MapKeyEnd, MapValueBegin, Bool(TRUE), MapValueEnd, MapKeyBegin>> \o U8(4) \o <<MapKeyEnd, MapValueBegin, Bool(FALSE), MapValueEnd, MapEnd>>,
  tup |-> <<TupleBegin(NoMeta, 2), TupleValueBegin(NoTag, Nth(0)), Num("i32", "3"), TupleValueEnd(NoTag, Nth(0)), TupleValueBegin(NoTag, Nth(1)), Bool(TRUE), TupleValueEnd(NoTag, Nth(1)), TupleEnd(NoMeta)>>,
  inner |-> <<RecordTupleBegin(InnerMeta, 2), RecordTupleValueBegin(NoTag, Ident(<<120>>), Nth(0)), Num("i32", "1"), RecordTupleValueEnd(NoTag, Ident(<<120>>), Nth(0)),
              RecordTupleValueBegin(NoTag, Ident(<<121>>), Nth(1)), Bool(TRUE), RecordTupleValueEnd(NoTag, Ident(<<121>>), Nth(1)), RecordTupleEnd(InnerMeta)>>,
  pair |-> <<TupleBegin(PairMeta, 2), TupleValueBegin(NoTag, Nth(0))>> \o U8(8) \o <<TupleValueEnd(NoTag, Nth(0)), TupleValueBegin(NoTag, Nth(1))>> \o U8(9) \o <<TupleValueEnd(NoTag, Nth(1)), TupleEnd(PairMeta)>>,
  var |-> <<EnumBegin(VarMeta), TaggedBegin(VarB)>> \o U8(7) \o <<TaggedEnd(VarB), EnumEnd(VarMeta)>>,
  arr |-> <<TaggedBegin(ConstM)>> \o Seq2(U8(5), U8(6)) \o <<TaggedEnd(ConstM)>>,
  unit |-> <<TagTok(Meta(UnitTag, NoLab, NoIdx))>>,
  boxed |-> Txt(<<98>>),
  both |-> LET a == <<TaggedBegin(ConstM)>> \o Seq2(U8(5), U8(6)) \o <<TaggedEnd(ConstM)>> IN
           <<TupleBegin(NoMeta, 2), TupleValueBegin(NoTag, Nth(0))>> \o a \o <<TupleValueEnd(NoTag, Nth(0)), TupleValueBegin(NoTag, Nth(1))>> \o U8(7) \o <<TupleValueEnd(NoTag, Nth(1)), TupleEnd(NoMeta)>>]
TypeOrder == <<"i32", "inner", "str", "vec", "some", "map", "none", "tup", "pair", "boxed", "var", "arr", "unit">>
\* type parameters stand for these
\* (with a bound, a where clause, a default; a lifetime, a type and a constant together)
GenType(g) == CASE g \in {"genT", "genB", "genW", "genD"} -> "i32" [] g = "genL" -> "str" [] g = "genN" -> "arr" [] g = "genM" -> "both"

LabAttr == {"lab", "labp"}
IdxAttr == {"idx", "idxn", "idxp"}
GenAttr == {"genT", "genB", "genW", "genD", "genL", "genN", "genM"}
ContainerAttrs(b) == {"tag", "dup", "unknown", "transparent", "dyn", "unl", "uni", "unlv", "univ"} \cup LabAttr \cup IdxAttr \cup GenAttr
VariantAttrs == {"tag", "dup", "transparent", "unl", "uni", "disc"} \cup LabAttr \cup IdxAttr
FieldAttrs == {"tag", "dup", "transparent", "dtag", "skip", "noskip", "flat"} \cup LabAttr \cup IdxAttr
At(v, p, a) == [v |-> v, p |-> p, a |-> a]
ModsOf(b) == {At(0, 0, a) : a \in ContainerAttrs(b)}
  \cup (IF IsEnum(b) THEN {At(v, 0, a) : v \in BodyNos(b), a \in VariantAttrs} ELSE {})
  \cup UNION {{At(v, p, a) : p \in 1..BodyOf(b, v).n, a \in FieldAttrs} : v \in BodyNos(b)}
\* attributes that say different things about the same
Groups == {LabAttr, IdxAttr, GenAttr, {"tag", "dup"}, {"skip", "noskip"}}
Compatible(ms) == \A m1, m2 \in ms : (m1 # m2 /\ m1.v = m2.v /\ m1.p = m2.p) => ~\E g \in Groups : m1.a \in g /\ m2.a \in g

-----------------------------------------------------------------------------
(* d = [base, mods, seed]                                                  *)
Attrs(d, v, p) == {m.a : m \in {x \in d.mods : x.v = v /\ x.p = p}}
Has(d, v, p, a) == At(v, p, a) \in d.mods
HasAny(d, v, p, as) == Attrs(d, v, p) \cap as # {}
Live(d, v) == {p \in 1..BodyOf(d.base, v).n : ~Has(d, v, p, "skip")}
\* the field a type parameter is used for: the first one there is
GenField(d) == LET vs == {v \in BodyNos(d.base) : BodyOf(d.base, v).n > 0} IN
  IF vs = {} THEN <<>> ELSE <<CHOOSE v \in vs : \A w \in vs : v <= w, 1>>
GenOf(d) == IF HasAny(d, 0, 0, GenAttr) THEN CHOOSE g \in GenAttr : Has(d, 0, 0, g) ELSE ""
TypeName(d, v, p) ==
  IF GenOf(d) # "" /\ GenField(d) = <<v, p>> THEN GenOf(d)
  ELSE TypeOrder[((d.seed + 4 * v + 3 * p) % Len(TypeOrder)) + 1]
FieldToks(d, v, p) == LET t == TypeName(d, v, p) IN FieldTypes[IF t \in GenAttr THEN GenType(t) ELSE t]

XY == Lab(<<120, 32, 121>>, TRUE, FALSE)      \* label = "x y"
LBL == Lab(<<108, 98, 108>>, TRUE, FALSE)     \* label = LBL
TagOf(d, v, p) == IF Has(d, v, p, "tag") THEN "T1" ELSE NoTag
LabelIn(d, v, p, else) == IF Has(d, v, p, "lab") THEN XY ELSE IF Has(d, v, p, "labp") THEN LBL ELSE else
IndexIn(d, v, p, else) == IF Has(d, v, p, "idx") THEN Idx("7", FALSE) ELSE IF Has(d, v, p, "idxn") THEN Idx("-3", FALSE)
                          ELSE IF Has(d, v, p, "idxp") THEN Idx("9", FALSE) ELSE else
FieldLabel(d, v, p) ==
  IF Has(d, v, 0, "unl") THEN NoLab
  ELSE LabelIn(d, v, p, IF BodyOf(d.base, v).shape = "named" THEN Ident(FieldName(Pool(d.seed), p).cps) ELSE NoLab)
Labelled(d, v, p) == FieldLabel(d, v, p) # NoLab
Disc(v) == IF v % 2 = 1 THEN 20 * v ELSE -(20 * v)

-----------------------------------------------------------------------------
(* Which declarations are rejected, and which are left open.               *)
FieldRejected(d, v, p) ==
  \/ HasAny(d, v, p, {"dup", "transparent"})
  \/ /\ p \in Live(d, v)
     /\ \/ Has(d, v, 0, "unl") /\ HasAny(d, v, p, LabAttr)
        \/ Has(d, v, 0, "uni") /\ HasAny(d, v, p, IdxAttr)
BodyRejected(d, v) ==
  LET b == BodyOf(d.base, v) IN
  CASE b.shape = "unit" -> HasAny(d, v, 0, {"unl", "uni", "transparent"})
    [] b.shape = "newtype" -> \/ HasAny(d, v, 0, {"unl", "uni"}) \/ Attrs(d, v, 1) # {}
                              \/ Has(d, v, 0, "transparent") /\ (v # 0 \/ HasAny(d, v, 0, {"tag"} \cup LabAttr \cup IdxAttr))
    [] OTHER -> \/ Has(d, v, 0, "transparent") \/ \E p \in 1..b.n : FieldRejected(d, v, p)
                \/ (\E p \in Live(d, v) : Labelled(d, v, p)) /\ (\E p \in Live(d, v) : ~Labelled(d, v, p))
Rejected(d) ==
  \/ HasAny(d, 0, 0, {"dup", "unknown"})
  \/ \E v \in BodyNos(d.base) : BodyRejected(d, v) \/ Has(d, v, 0, "dup")
  \/ IF IsEnum(d.base)
     THEN \/ HasAny(d, 0, 0, {"unl", "uni", "transparent"})
          \/ Has(d, 0, 0, "dyn") /\ HasAny(d, 0, 0, {"tag", "unlv", "univ"} \cup LabAttr \cup IdxAttr)
     ELSE HasAny(d, 0, 0, {"dyn", "unlv", "univ"})

FieldOpen(d, v, p) ==
  \/ Has(d, v, p, "flat") /\ HasAny(d, v, p, {"tag", "dtag", "skip"} \cup LabAttr \cup IdxAttr)
  \/ /\ Has(d, v, p, "flat")
     /\ \E q \in Live(d, v) : HasAny(d, v, q, IdxAttr)
  \* what comes after an index that is only known by name
  \/ /\ p \in Live(d, v) /\ ~HasAny(d, v, p, IdxAttr) /\ ~Has(d, v, 0, "uni")
     /\ \E q \in Live(d, v) : q < p /\ Has(d, v, q, "idxp")
BodyOpen(d, v) ==
  LET b == BodyOf(d.base, v) IN
  /\ b.shape \in {"named", "unnamed"}
  /\ \/ Live(d, v) = {} /\ HasAny(d, v, 0, {"unl", "uni"})
     \/ \E p \in 1..b.n : FieldOpen(d, v, p)
VariantOpen(d, v) ==
  \/ Has(d, 0, 0, "dyn") /\ HasAny(d, v, 0, IdxAttr)
  \/ Has(d, 0, 0, "dyn") /\ BodyOf(d.base, v).shape # "unit" /\ HasAny(d, v, 0, LabAttr)
  \/ Has(d, 0, 0, "dyn") /\ BodyOf(d.base, v).shape = "newtype" /\ Has(d, v, 0, "tag")
  \/ Has(d, 0, 0, "unlv") /\ HasAny(d, v, 0, LabAttr)
  \/ Has(d, 0, 0, "univ") /\ HasAny(d, v, 0, IdxAttr)
  \* the position of a variant after one that is given an index
  \/ ~HasAny(d, v, 0, IdxAttr \cup {"disc"}) /\ \E w \in 1..(v - 1) : HasAny(d, w, 0, IdxAttr)
Open(d) ==
  \/ GenOf(d) # "" /\ GenField(d) = <<>>
  \/ \E v \in BodyNos(d.base) : BodyOpen(d, v) \/ (v > 0 /\ VariantOpen(d, v))

-----------------------------------------------------------------------------
(* What is streamed.                                                       *)
RECURSIVE Small(_)
Small(s) == IF s = "" THEN 0 ELSE Small(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal[ChAt(s, Len(s))]
FieldValue(d, v, p) == IF Has(d, v, p, "dtag")
  THEN LET m == Meta("T2", NoLab, NoIdx) IN <<TaggedBegin(m)>> \o FieldToks(d, v, p) \o <<TaggedEnd(m)>> ELSE FieldToks(d, v, p)
Target(d, v) ==
  LET l == Live(d, v) lab == \E p \in l : Labelled(d, v, p) idx == ~Has(d, v, 0, "uni") IN
  IF l = {} THEN (IF BodyOf(d.base, v).shape = "named" THEN "record_tuple" ELSE "tuple")
  ELSE IF lab THEN (IF idx THEN "record_tuple" ELSE "record") ELSE (IF idx THEN "tuple" ELSE "seq")
\* all fields; cur is the next position, ex whether positions no longer are offsets
FieldsOf(d, v) ==
  LET live == TLCEval(Live(d, v))
      target == TLCEval(Target(d, v))
      one(acc, p) ==
        IF p \notin live THEN acc
        ELSE IF Has(d, v, p, "flat") THEN
          LET f == FlattenTo(target, FieldToks(d, v, p), acc.cur) IN [acc EXCEPT !.toks = @ \o f.toks, !.cur = Small(f.next)]
        ELSE LET own == HasAny(d, v, p, IdxAttr)
                 i == IndexIn(d, v, p, Idx(ToString(acc.cur), ~acc.ex))
                 t == TagOf(d, v, p) l == FieldLabel(d, v, p) x == FieldValue(d, v, p)
                 next == CASE Has(d, v, p, "idx") -> 8 [] Has(d, v, p, "idxn") -> -2 [] OTHER -> acc.cur + 1
                 call == CASE target = "record_tuple" -> <<RecordTupleValueBegin(t, l, i)>> \o x \o <<RecordTupleValueEnd(t, l, i)>>
                           [] target = "tuple" -> <<TupleValueBegin(t, i)>> \o x \o <<TupleValueEnd(t, i)>>
                           [] target = "record" -> <<RecordValueBegin(t, l)>> \o x \o <<RecordValueEnd(t, l)>>
                           [] target = "seq" -> <<SeqValueBegin>> \o x \o <<SeqValueEnd>> IN
          IF target \in {"record_tuple", "tuple"}
          THEN [toks |-> acc.toks \o call, cur |-> next, ex |-> acc.ex \/ own] ELSE [acc EXCEPT !.toks = @ \o call] IN
  FoldLeft(one, [toks |-> <<>>, cur |-> 0, ex |-> FALSE], [p \in 1..BodyOf(d.base, v).n |-> p]).toks
Body(d, v, m) ==
  LET b == BodyOf(d.base, v)
      n == IF \E p \in Live(d, v) : Has(d, v, p, "flat") THEN -1 ELSE Cardinality(Live(d, v))
      fs == FieldsOf(d, v) IN
  CASE b.shape = "unit" -> <<TagTok(m)>>
    [] b.shape = "newtype" ->
         IF Has(d, v, 0, "transparent") \/ (v > 0 /\ Has(d, 0, 0, "dyn")) THEN FieldToks(d, v, 1)
         ELSE <<TaggedBegin(m)>> \o FieldToks(d, v, 1) \o <<TaggedEnd(m)>>
    [] Target(d, v) = "record_tuple" -> <<RecordTupleBegin(m, n)>> \o fs \o <<RecordTupleEnd(m)>>
    [] Target(d, v) = "record" -> <<RecordBegin(m, n)>> \o fs \o <<RecordEnd(m)>>
    [] Target(d, v) = "tuple" -> <<TupleBegin(m, n)>> \o fs \o <<TupleEnd(m)>>
    [] Target(d, v) = "seq" -> <<TaggedBegin(m), SeqBegin(n)>> \o fs \o <<SeqEnd, TaggedEnd(m)>>
OwnMeta(d) == Meta(TagOf(d, 0, 0), LabelIn(d, 0, 0, Ident(TyNames[Pool(d.seed)].cps)), IndexIn(d, 0, 0, NoIdx))
\* positions of variants: [next, ex] before variant v
RECURSIVE Alloc(_, _)
Alloc(d, v) ==
  IF v = 1 THEN [next |-> 0, ex |-> FALSE]
  ELSE LET a == Alloc(d, v - 1) IN
    IF HasAny(d, v - 1, 0, IdxAttr) THEN a
    ELSE IF Has(d, v - 1, 0, "disc") THEN [next |-> Disc(v - 1) + 1, ex |-> TRUE] ELSE [a EXCEPT !.next = @ + 1]
VariantIdx(d, v) ==
  IF HasAny(d, v, 0, IdxAttr) THEN IndexIn(d, v, 0, NoIdx)
  ELSE IF Has(d, 0, 0, "dyn") \/ Has(d, 0, 0, "univ") THEN NoIdx
  ELSE IF Has(d, v, 0, "disc") THEN Idx(ToString(Disc(v)), FALSE)
  ELSE LET a == Alloc(d, v) IN Idx(ToString(a.next), ~a.ex)
VariantLab(d, v) ==
  IF Has(d, 0, 0, "unlv") \/ (Has(d, 0, 0, "dyn") /\ BodyOf(d.base, v).shape # "unit") THEN NoLab
  ELSE LabelIn(d, v, 0, Ident(VariantName(Pool(d.seed), v).cps))
Derived(d, v) ==
  IF v = 0 THEN Body(d, 0, OwnMeta(d))
  ELSE LET x == Body(d, v, Meta(TagOf(d, v, 0), VariantLab(d, v), VariantIdx(d, v))) IN
       IF Has(d, 0, 0, "dyn") THEN x ELSE <<EnumBegin(OwnMeta(d))>> \o x \o <<EnumEnd(OwnMeta(d))>>
=============================================================================
