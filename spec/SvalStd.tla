------------------------------ MODULE SvalStd -------------------------------
(***************************************************************************)
(* The values that sval itself knows: a value is a tree of nodes           *)
(* [ty, n, r, kids], where ty names a Rust type, n is a length and r       *)
(* chooses the content.  Std gives the calls such a value makes.           *)
(***************************************************************************)
EXTENDS SvalSem

At(r, pool) == pool[((r \div 3) % Len(pool)) + 1]
Stir(r) == (r * 75 + 74) % 65537
StdInts == <<
  Num("u8", "0"), Num("u8", "255"), Num("u16", "65535"), Num("u32", "4294967295"), Num("u64", "18446744073709551615"),
  Num("u128", "340282366920938463463374607431768211455"), Num("i8", "-128"), Num("i16", "-32768"), Num("i32", "-2147483648"),
  Num("i64", "-9223372036854775808"), Num("i128", "-170141183460469231731687303715884105728"), Num("i8", "127"), Num("i64", "9223372036854775807"),
  Num("u128", "9223372036854775808"), Num("i128", "1"), Num("i32", "0"), Num("u64", "1")>>
StdFloats == <<Num("f32", "0.1"), Num("f64", "0.1"), Num("f64", "NaN"), Num("f32", "-inf"), Num("f64", "5e-324"), Num("f32", "3.4028235e38"), Num("f64", "-0.0"), Num("f64", "inf")>>
Rep(c, n) == [i \in 1..n |-> c]
\* lengths around those of inline buffers and of small counters
StdTexts == << <<>>, <<97>>, <<104, 233>>, <<8232, 34, 92>>, <<128512, 98>>, <<0, 10>> >>
LongTexts == << Rep(120, 23), Rep(233, 129), Rep(97, 257) >>
StdChars == <<97, 34, 0, 127, 233, 2047, 2048, 55295, 57344, 65535, 65536, 128512, 1114111, 8232>>
StdBytes == << <<>>, <<0>>, <<255, 1>>, <<1, 2, 3>>, <<128, 129, 130, 131, 132>> >>
LongBytes == << Rep(7, 24), Rep(200, 257) >>
StdNumbers == << <<49>>, <<45, 50, 46, 53>>, <<49, 101, 57, 57>>, <<48>> >>
StdJson == << <<110, 117, 108, 108>>, <<91, 49, 44, 50, 93>>, <<123, 125>> >>
\* what a Display or Debug implementation writes, in pieces
StdPieces == << <<>>, << <<97>> >>, << <<97>>, <<233, 98>> >>, << <<>>, <<34>>, <<>>, <<10, 99>> >> >>
LongPieces == << Rep(<<98, 233>>, 40), << Rep(99, 300), <<100>> >> >>
\* now and then a long one
Pick(r, pool, long) == IF (r \div 64) % 16 = 0 THEN At(r, long) ELSE At(r, pool)
ATextOf(r) == Pick(r, StdTexts, LongTexts)
BytesOf(r) == Pick(r, StdBytes, LongBytes)
PiecesOf(r) == Pick(r, StdPieces, LongPieces)

StdLeaves == {"unit", "null", "bool", "int", "float", "char", "str", "string", "boxstr", "display", "display2", "debug", "shown", "number", "json",
              "binslice", "binarray", "vec_u8", "slice_u8", "array_u8", "none"}
StdWraps == {"some", "ref", "box", "dyn", "Ref"}
StdLists == {"vec", "slice", "array", "tuple"}
StdMaps == {"mapslice", "btree", "hash"}
Kids(ty, n) == IF ty \in StdLeaves THEN 0 ELSE IF ty \in StdWraps THEN 1 ELSE IF ty = "mapslice" THEN 2 * n ELSE n

Text(s, b) == <<TextBegin(Utf8Len(s)), TextFrag(s, b), TextEnd>>
Const(ts) == LET m == Meta(ConstTag, NoLab, NoIdx) IN <<TaggedBegin(m)>> \o ts \o <<TaggedEnd(m)>>
Bin(s) == <<BinBegin(Len(s)), BinFrag(s, TRUE), BinEnd>>
Elems(xs) == Flatten([i \in 1..Len(xs) |-> <<SeqValueBegin>> \o xs[i] \o <<SeqValueEnd>>])
List(xs) == <<SeqBegin(Len(xs))>> \o Elems(xs) \o <<SeqEnd>>
U8s(s) == [i \in 1..Len(s) |-> <<Num("u8", ToString(s[i]))>>]
Entries(ks, vs) == Flatten([i \in 1..Len(ks) |-> <<MapKeyBegin>> \o ks[i] \o <<MapKeyEnd, MapValueBegin>> \o vs[i] \o <<MapValueEnd>>])
SomeMeta == Meta(SomeTag, Lab(<<83, 111, 109, 101>>, TRUE, TRUE), Idx("1", TRUE))
NoneMeta == Meta(NoneTag, Lab(<<78, 111, 110, 101>>, TRUE, TRUE), Idx("0", TRUE))
Offset(i) == Idx(ToString(i - 1), TRUE)
\* the keys of maps with keys of a fixed type: btree maps of u8, in order, and hash maps of strings
BKeys(n, r) == [i \in 1..n |-> (i - 1) * 40 + (r % 40)]
HKey(i, r) == <<97 + i, 98 + (r % 20)>>

RECURSIVE Std(_)
Std(x) ==
  LET sub == [i \in 1..Len(x.kids) |-> Std(x.kids[i])] r == x.r IN
  CASE x.ty = "unit" -> <<TagTok(Meta(UnitTag, NoLab, NoIdx))>>
    [] x.ty = "null" -> <<Null>>
    [] x.ty = "bool" -> <<Bool(r % 2 = 0)>>
    [] x.ty = "int" -> <<At(r, StdInts)>>
    [] x.ty = "float" -> <<At(r, StdFloats)>>
    [] x.ty = "char" -> Text(<<At(r, StdChars)>>, FALSE)
    [] x.ty \in {"str", "string", "boxstr"} -> Text(ATextOf(r), TRUE)
    [] x.ty \in {"display", "display2", "debug", "shown"} -> LET p == PiecesOf(r) IN <<TextBegin(-1)>> \o [i \in 1..Len(p) |-> TextFrag(p[i], FALSE)] \o <<TextEnd>>
    [] x.ty = "number" -> LET m == Meta(NumberTag, NoLab, NoIdx) IN <<TaggedBegin(m), TextBegin(-1), TextFrag(At(r, StdNumbers), FALSE), TextEnd, TaggedEnd(m)>>
    [] x.ty = "json" -> LET m == Meta(JsonValueTag, NoLab, NoIdx) IN <<TaggedBegin(m)>> \o Text(At(r, StdJson), TRUE) \o <<TaggedEnd(m)>>
    [] x.ty = "binslice" -> Bin(BytesOf(r))
    [] x.ty = "binarray" -> Const(Bin(At(r, StdBytes)))
    [] x.ty \in {"vec_u8", "slice_u8"} -> List(U8s(BytesOf(r)))
    [] x.ty = "array_u8" -> Const(List(U8s(At(r, StdBytes))))
    [] x.ty = "none" -> <<TagTok(NoneMeta)>>
    [] x.ty = "some" -> <<TaggedBegin(SomeMeta)>> \o sub[1] \o <<TaggedEnd(SomeMeta)>>
    [] x.ty \in {"ref", "box", "dyn", "Ref"} -> sub[1]
    [] x.ty \in {"vec", "slice"} -> List(sub)
    [] x.ty = "array" -> Const(List(sub))
    [] x.ty = "tuple" -> <<TupleBegin(NoMeta, x.n)>>
         \o Flatten([i \in 1..x.n |-> <<TupleValueBegin(NoTag, Offset(i))>> \o sub[i] \o <<TupleValueEnd(NoTag, Offset(i))>>]) \o <<TupleEnd(NoMeta)>>
    [] x.ty = "mapslice" -> <<MapBegin(x.n)>> \o Entries([i \in 1..x.n |-> sub[2 * i - 1]], [i \in 1..x.n |-> sub[2 * i]]) \o <<MapEnd>>
    [] x.ty = "btree" -> <<MapBegin(x.n)>> \o Entries(U8s(BKeys(x.n, r)), sub) \o <<MapEnd>>
    [] x.ty = "hash" -> <<MapBegin(x.n)>> \o Entries([i \in 1..x.n |-> Text(HKey(i, r), TRUE)], sub) \o <<MapEnd>>
=============================================================================
