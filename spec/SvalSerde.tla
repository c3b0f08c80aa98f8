----------------------------- MODULE SvalSerde ------------------------------
(***************************************************************************)
(* The correspondence between sval's tree and serde's data model.          *)
(* SerdeOf: tree -> the calls a serializer gets, as a tree of its own.     *)
(* ToksOf: serde's data model -> the tokens it streams.                    *)
(***************************************************************************)
EXTENDS SvalNested

U32Max == "4294967295"
IsU32(i) == i.some /\ ~IsNeg(i.v) /\ DigLeq(i.v, U32Max)
Named(l) == l.some /\ l.st
\* names are either absent or static
NameOk(l) == l.some => l.st

RECURSIVE HasForm(_), SerdeOf(_)
VariantForm(m) == Named(m.lab) /\ IsU32(m.idx)
HasForm(x) ==
  CASE x.k \in ScalarKinds \cup {"text", "binary"} -> TRUE
    [] x.k = "tag" -> x.m.tag \in {NoneTag, UnitTag} \/ Named(x.m.lab)
    [] x.k = "tagged" -> (x.m.tag = SomeTag \/ NameOk(x.m.lab)) /\ HasForm(x.x)
    [] x.k = "seq" -> \A i \in 1..Len(x.xs) : HasForm(x.xs[i].x)
    [] x.k = "map" -> \A i \in 1..Len(x.xs) : HasForm(x.xs[i].key) /\ HasForm(x.xs[i].x)
    [] x.k = "tuple" -> x.n # -1 /\ NameOk(x.m.lab) /\ \A i \in 1..Len(x.xs) : HasForm(x.xs[i].x)
    [] x.k = "record" -> x.n # -1 /\ NameOk(x.m.lab)
         /\ \A i \in 1..Len(x.xs) : (x.m.lab.some => Named(x.xs[i].lab)) /\ HasForm(x.xs[i].x)
    [] x.k = "enum" -> Named(x.m.lab) /\
         (x.xs # <<>> => LET v == x.xs[1] IN
            /\ v.k \in {"tag", "tagged", "tuple", "record"} /\ VariantForm(v.m)
            /\ v.k = "tagged" => HasForm(v.x)
            /\ v.k \in {"tuple", "record"} => (v.n # -1 /\ \A i \in 1..Len(v.xs) : HasForm(v.xs[i].x))
            /\ v.k = "record" => \A i \in 1..Len(v.xs) : Named(v.xs[i].lab))

Elems(x) == [i \in 1..Len(x.xs) |-> SerdeOf(x.xs[i].x)]
Fields(x) == [i \in 1..Len(x.xs) |-> [f |-> x.xs[i].lab.s, x |-> SerdeOf(x.xs[i].x)]]
SerdeOf(x) ==
  CASE x.k = "null" -> [s |-> "none"]
    [] x.k \in ScalarKinds -> [s |-> x.k, v |-> x.v]
    [] x.k = "text" -> [s |-> "str", t |-> x.s]
    [] x.k = "binary" -> [s |-> "bytes", t |-> x.s]
    [] x.k = "tag" -> IF x.m.tag = NoneTag THEN [s |-> "none"] ELSE IF x.m.tag = UnitTag THEN [s |-> "unit"]
                      ELSE [s |-> "unit_struct", name |-> x.m.lab.s]
    [] x.k = "tagged" -> IF x.m.tag = SomeTag THEN [s |-> "some", x |-> SerdeOf(x.x)]
                         ELSE IF x.m.lab.some THEN [s |-> "newtype_struct", name |-> x.m.lab.s, x |-> SerdeOf(x.x)]
                         ELSE SerdeOf(x.x)
    [] x.k = "seq" -> [s |-> "seq", n |-> x.n, xs |-> Elems(x)]
    [] x.k = "map" -> [s |-> "map", n |-> x.n, xs |-> [i \in 1..Len(x.xs) |-> <<SerdeOf(x.xs[i].key), SerdeOf(x.xs[i].x)>>]]
    [] x.k = "tuple" -> IF x.m.lab.some THEN [s |-> "tuple_struct", name |-> x.m.lab.s, n |-> x.n, xs |-> Elems(x)]
                        ELSE [s |-> "tuple", n |-> x.n, xs |-> Elems(x)]
    [] x.k = "record" -> IF x.m.lab.some THEN [s |-> "struct", name |-> x.m.lab.s, n |-> x.n, fs |-> Fields(x)]
                         ELSE [s |-> "tuple", n |-> x.n, xs |-> Elems(x)]
    [] x.k = "enum" ->
         IF x.xs = <<>> THEN [s |-> "unit_struct", name |-> x.m.lab.s]
         ELSE LET v == x.xs[1] name == x.m.lab.s i == v.m.idx.v var == v.m.lab.s IN
              CASE v.k = "tag" -> [s |-> "unit_variant", name |-> name, i |-> i, var |-> var]
                [] v.k = "tagged" -> [s |-> "newtype_variant", name |-> name, i |-> i, var |-> var, x |-> SerdeOf(v.x)]
                [] v.k = "tuple" -> [s |-> "tuple_variant", name |-> name, i |-> i, var |-> var, n |-> v.n, xs |-> Elems(v)]
                [] v.k = "record" -> [s |-> "struct_variant", name |-> name, i |-> i, var |-> var, n |-> v.n, fs |-> Fields(v)]

-----------------------------------------------------------------------------
PlainLab(s) == Lab(s, TRUE, FALSE)
NamedMeta(s) == Meta(NoTag, PlainLab(s), NoIdx)
VarMeta(y) == Meta(NoTag, PlainLab(y.var), Idx(y.i, FALSE))
NoneMeta == Meta(NoneTag, Lab(<<78, 111, 110, 101>>, TRUE, TRUE), Idx("0", TRUE))
SomeMeta2 == Meta(SomeTag, Lab(<<83, 111, 109, 101>>, TRUE, TRUE), Idx("1", TRUE))
ShortText(s) == <<TextBegin(Utf8Len(s)), TextFrag(s, FALSE), TextEnd>>
RECURSIVE ToksOf(_)
TupleItems(y) == Flatten([i \in 1..Len(y.xs) |-> LET ix == PlainIdx(ToString(i - 1)) IN
  <<TupleValueBegin(NoTag, ix)>> \o ToksOf(y.xs[i]) \o <<TupleValueEnd(NoTag, ix)>>])
RecordItems(y) == Flatten([i \in 1..Len(y.fs) |-> LET l == PlainLab(y.fs[i].f) IN
  <<RecordValueBegin(NoTag, l)>> \o ToksOf(y.fs[i].x) \o <<RecordValueEnd(NoTag, l)>>])
InEnum(y, ts) == <<EnumBegin(NamedMeta(y.name))>> \o ts \o <<EnumEnd(NamedMeta(y.name))>>
ToksOf(y) ==
  CASE y.s = "none" -> <<TagTok(NoneMeta)>>
    [] y.s = "unit" -> <<TagTok(Meta(UnitTag, NoLab, NoIdx))>>
    [] y.s = "bool" -> <<Bool(y.v)>>
    [] y.s \in NumKinds -> <<Num(y.s, y.v)>>
    [] y.s = "str" -> ShortText(y.t)
    [] y.s = "bytes" -> <<BinBegin(Len(y.t)), BinFrag(y.t, FALSE), BinEnd>>
    [] y.s = "unit_struct" -> <<TagTok(NamedMeta(y.name))>>
    [] y.s = "some" -> <<TaggedBegin(SomeMeta2)>> \o ToksOf(y.x) \o <<TaggedEnd(SomeMeta2)>>
    [] y.s = "newtype_struct" -> <<TaggedBegin(NamedMeta(y.name))>> \o ToksOf(y.x) \o <<TaggedEnd(NamedMeta(y.name))>>
    [] y.s = "seq" -> <<SeqBegin(y.n)>> \o Flatten([i \in 1..Len(y.xs) |-> <<SeqValueBegin>> \o ToksOf(y.xs[i]) \o <<SeqValueEnd>>]) \o <<SeqEnd>>
    [] y.s = "map" -> <<MapBegin(y.n)>> \o Flatten([i \in 1..Len(y.xs) |->
         <<MapKeyBegin>> \o ToksOf(y.xs[i][1]) \o <<MapKeyEnd, MapValueBegin>> \o ToksOf(y.xs[i][2]) \o <<MapValueEnd>>]) \o <<MapEnd>>
    [] y.s = "tuple" -> <<TupleBegin(NoMeta, y.n)>> \o TupleItems(y) \o <<TupleEnd(NoMeta)>>
    [] y.s = "tuple_struct" -> <<TupleBegin(NamedMeta(y.name), y.n)>> \o TupleItems(y) \o <<TupleEnd(NamedMeta(y.name))>>
    [] y.s = "struct" -> <<RecordBegin(NamedMeta(y.name), y.n)>> \o RecordItems(y) \o <<RecordEnd(NamedMeta(y.name))>>
    [] y.s = "unit_variant" -> InEnum(y, <<TagTok(VarMeta(y))>>)
    [] y.s = "newtype_variant" -> InEnum(y, <<TaggedBegin(VarMeta(y))>> \o ToksOf(y.x) \o <<TaggedEnd(VarMeta(y))>>)
    [] y.s = "tuple_variant" -> InEnum(y, <<TupleBegin(VarMeta(y), y.n)>> \o TupleItems(y) \o <<TupleEnd(VarMeta(y))>>)
    [] y.s = "struct_variant" -> InEnum(y, <<RecordBegin(VarMeta(y), y.n)>> \o RecordItems(y) \o <<RecordEnd(VarMeta(y))>>)

-----------------------------------------------------------------------------
(* Give what serde insists on: static names, and small variant indexes.    *)
NiceLab(l, must) == IF l.some THEN [l EXCEPT !.st = TRUE] ELSE IF must THEN Lab(<<76>>, TRUE, FALSE) ELSE l
NiceIdx(i) == IF IsU32(i) THEN i ELSE Idx("4294967295", FALSE)
NiceMeta(m, must) == Meta(m.tag, NiceLab(m.lab, must), NiceIdx(m.idx))
NiceTok(t, must) ==
  CASE t.k \in {"enum_begin", "enum_end", "tag"} -> [t EXCEPT !.m = NiceMeta(@, TRUE)]
    [] t.k \in {"tagged_begin", "tagged_end", "record_begin", "record_end", "tuple_begin", "tuple_end", "record_tuple_begin", "record_tuple_end"} -> [t EXCEPT !.m = NiceMeta(@, must)]
    [] t.k \in {"record_value_begin", "record_value_end", "record_tuple_value_begin", "record_tuple_value_end"} -> [t EXCEPT !.lab = NiceLab(@, TRUE)]
    [] OTHER -> t
Nice(toks, must) == [i \in 1..Len(toks) |-> NiceTok(toks[i], must)]
=============================================================================
