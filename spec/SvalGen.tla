------------------------------ MODULE SvalGen -------------------------------
(***************************************************************************)
(* Behaviours of a producer that respects the call contract: every         *)
(* reachable complete state is one token sequence that a value may stream. *)
(* Shapes are chosen nondeterministically, payloads from the pools below   *)
(* by a generator carried in the state (rng), so that TLC can enumerate    *)
(* shapes exhaustively and payloads come from the initial states.          *)
(***************************************************************************)
EXTENDS SvalGrammar, IOUtils

CONSTANTS
  MaxToks,      \* bound on the length of a token sequence
  MaxDepth,     \* bound on nesting
  MaxItems,     \* bound on the entries of one container
  Leaves,       \* kinds of leaf values: subset of AllLeaves
  Openers,      \* kinds of containers: subset of AllOpeners
  MaxHints,     \* bound on free-standing tag hints
  Seeds,        \* set of payload seeds
  ForceHint,    \* TRUE: every size hint is given
  Deep,         \* TRUE: prefer large behaviours (for simulation)
  Big           \* sizes of the large values to start from; empty: build values from nothing

AllLeaves == {"null", "bool", "int", "float", "text", "binary", "tag", "number", "none", "unit", "json", "htext"}
AllOpeners == {"map", "seq", "tagged", "some", "enum", "record", "tuple", "record_tuple", "val", "valc", "emptyenum"}
\* emptyenum is not a container: it allows an enum to be closed without a variant

VARIABLES toks, stack, rng, hints, done
gvars == <<toks, stack, rng, hints, done>>

-----------------------------------------------------------------------------
(* Payload pools *)

IntPool == <<
  Num("u8", "0"), Num("u8", "255"), Num("i64", "-1"), Num("u16", "65535"), Num("i8", "-128"),
  Num("u32", "4294967295"), Num("i16", "-32768"), Num("u64", "18446744073709551615"),
  Num("i32", "-2147483648"), Num("u128", "340282366920938463463374607431768211455"),
  Num("i64", "-9223372036854775808"), Num("i128", "-170141183460469231731687303715884105728"),
  Num("i64", "9223372036854775807"), Num("u64", "9223372036854775808"), Num("u128", "9223372036854775807"),
  Num("u128", "9223372036854775808"), Num("i128", "9223372036854775808"), Num("i128", "-9223372036854775809"),
  Num("i128", "-9223372036854775808"), Num("u128", "18446744073709551616"), Num("i8", "127"), Num("i16", "32767"),
  Num("i32", "2147483647"), Num("i128", "42"), Num("u64", "7")>>
FloatPool == <<
  Num("f64", "1.5"), Num("f64", "NaN"), Num("f32", "0.1"), Num("f64", "-0.0"), Num("f64", "inf"), Num("f64", "1e300"),
  Num("f32", "NaN"), Num("f64", "-inf"), Num("f64", "5e-324"), Num("f32", "3.4028235e38"), Num("f32", "-inf"),
  Num("f64", "0.1"), Num("f64", "100.0"), Num("f32", "16777216.0"), Num("f64", "123456789012345680.0")>>
\* Fragments of text: plain, empty, quotes, escapes, control, multi-byte.
FragPool == <<
  <<97>>, <<104, 105>>, <<>>, <<34>>, <<92>>, <<10>>, <<98, 34, 99>>, <<0>>, <<233>>, <<31, 127>>, <<8232, 47>>,
  <<128512>>, <<9, 13>>, <<8, 12>>, <<39>>, <<65039>>, <<123, 125>>, <<49>>, <<97, 92>>, <<92, 110>>>>
BytePool == << <<1>>, <<0, 255>>, <<>>, <<34>>, <<128, 129, 130>>, <<7>> >>
LabelPool == <<
  Lab(<<97>>, TRUE, TRUE), Lab(<<98>>, TRUE, FALSE), Lab(<<65>>, TRUE, TRUE), Lab(<<99, 34, 100>>, FALSE, FALSE),
  Lab(<<102, 49>>, TRUE, TRUE), Lab(<<101>>, FALSE, FALSE), Lab(<<92, 10>>, TRUE, FALSE), Lab(<<233, 120>>, TRUE, FALSE),
  Lab(<<>>, TRUE, FALSE), Lab(<<48>>, FALSE, FALSE), Lab(<<120, 50>>, FALSE, TRUE)>>
MetaLabelPool == <<NoLab, NoLab>> \o LabelPool
IdxPool == <<
  Idx("0", TRUE), Idx("1", TRUE), Idx("7", FALSE), Idx("-1", FALSE), Idx("2", TRUE), Idx("4294967295", FALSE),
  Idx("9223372036854775808", FALSE), Idx("4294967296", FALSE), Idx("3", TRUE)>>
MetaIdxPool == <<NoIdx, NoIdx>> \o IdxPool
TagPool == <<NoTag, NoTag, NoTag, "T1", "T2", SomeTag, NoneTag, UnitTag>>
\* Number texts in the documented grammar, already split into fragments.
NumberPool == <<
  << <<49>> >>, << <<45, 49>> >>, << <<43, 49>> >>, << <<48, 48, 49>> >>, << <<49, 46, 53>> >>, << <<45>>, <<48>>, <<48, 55>> >>,
  << <<49, 101, 50>> >>, << <<48, 46, 53>> >>, << <<49>>, <<46>>, <<53>>, <<69, 45>>, <<55>> >>, << <<45, 48, 48, 46, 53>> >>,
  << <<48>> >>, << <<48, 48>> >>, << <<49, 48, 48>> >>, << <<48>>, <<101>>, <<53>> >>, << <<45, 48, 69, 43, 53>> >>,
  << <<48, 46, 48>> >>, << <<>>, <<57>>, <<>> >>, << <<45, 48>> >>, << <<49, 46, 48, 48>>, <<101, 43, 49>> >> >>

Pick(r, pool) == pool[((r \div 3) % Len(pool)) + 1]
Mix(r) == (r * 75 + 74) % 65537

\* A text of up to three fragments.
TextLeaf(r) ==
  LET nf == (r \div 5) % 4
      r1 == Mix(r)  r2 == Mix(r1)  r3 == Mix(r2)
      fs == SubSeq(<<TextFrag(Pick(r1, FragPool), r1 % 3 # 0), TextFrag(Pick(r2, FragPool), r2 % 2 = 0),
                     TextFrag(Pick(r3, FragPool), r3 % 2 = 0)>>, 1, nf)
      len == FoldLeft(LAMBDA a, f : a + Utf8Len(f.s), 0, fs)
  IN <<TextBegin(IF ForceHint \/ r % 2 = 0 THEN len ELSE -1)>> \o fs \o <<TextEnd>>
BinLeaf(r) ==
  LET nf == (r \div 5) % 3
      r1 == Mix(r)  r2 == Mix(r1)
      fs == SubSeq(<<BinFrag(Pick(r1, BytePool), r1 % 2 = 0), BinFrag(Pick(r2, BytePool), r2 % 3 # 0)>>, 1, nf)
      len == FoldLeft(LAMBDA a, f : a + Len(f.s), 0, fs)
  IN <<BinBegin(IF ForceHint \/ r % 2 = 0 THEN len ELSE -1)>> \o fs \o <<BinEnd>>
\* Text or binary with a hint somewhere inside.
HintedLeaf(r) ==
  LET t == IF r % 3 = 0 THEN BinLeaf(Mix(r)) ELSE TextLeaf(Mix(r))
      at == 1 + ((r \div 7) % (Len(t) - 1))
  IN SubSeq(t, 1, at) \o <<TagHint("T2")>> \o SubSeq(t, at + 1, Len(t))
RndMeta(r) == Meta(Pick(Mix(r), TagPool), Pick(r, MetaLabelPool), Pick(Mix(Mix(r)), MetaIdxPool))
NumberLeaf(r) ==
  LET fs == Pick(r, NumberPool) m == Meta(NumberTag, NoLab, NoIdx) b == (r % 2 = 0) IN
  <<TaggedBegin(m), TextBegin(-1)>> \o [i \in 1..Len(fs) |-> TextFrag(fs[i], b)] \o <<TextEnd, TaggedEnd(m)>>
\* Text tagged as something JSON already understands.
JsonLeaf(r) ==
  LET c == Pick(r, << <<JsonValueTag, << <<91, 49, 44>>, <<116, 114, 117, 101, 93>> >> >>,
                      <<JsonValueTag, << <<123, 34, 120, 34, 58, 110, 117, 108, 108, 125>> >> >>,
                      <<JsonTextTag, << <<97, 92, 110>>, <<98>> >> >>,
                      <<JsonNumberTag, << <<49, 46, 53>> >> >>,
                      <<JsonNumberTag, << <<45, 49>>, <<101, 51>> >> >> >>)
      m == Meta(c[1], NoLab, NoIdx) b == (r % 2 = 0) IN
  <<TaggedBegin(m), TextBegin(-1)>> \o [i \in 1..Len(c[2]) |-> TextFrag(c[2][i], b)] \o <<TextEnd, TaggedEnd(m)>>

LeafToks(kind, r) ==
  CASE kind = "null" -> <<Null>>
    [] kind = "bool" -> <<Bool(r % 2 = 0)>>
    [] kind = "int" -> <<Pick(r, IntPool)>>
    [] kind = "float" -> <<Pick(r, FloatPool)>>
    [] kind = "text" -> TextLeaf(r)
    [] kind = "binary" -> BinLeaf(r)
    [] kind = "htext" -> HintedLeaf(r)
    [] kind = "tag" -> <<TagTok(RndMeta(r))>>
    [] kind = "none" -> <<TagTok(Meta(NoneTag, Lab(<<78, 111, 110, 101>>, TRUE, TRUE), Idx("0", FALSE)))>>
    [] kind = "unit" -> <<TagTok(Meta(UnitTag, NoLab, NoIdx))>>
    [] kind = "number" -> NumberLeaf(r)
    [] kind = "json" -> JsonLeaf(r)
LeafOk(kind, f) == WantsValue(f) /\ (WantsVariant(f) => kind \in {"tag", "none", "unit"})

SomeMeta == Meta(SomeTag, Lab(<<83, 111, 109, 101>>, TRUE, TRUE), Idx("1", FALSE))
SizeHint(r) == IF ForceHint \/ r % 2 = 0 THEN (r \div 2) % (MaxItems + 1) ELSE -1
OpenTok(kind, r) ==
  CASE kind = "map" -> MapBegin(SizeHint(r))
    [] kind = "seq" -> SeqBegin(SizeHint(r))
    [] kind = "tagged" -> TaggedBegin(RndMeta(r))
    [] kind = "some" -> TaggedBegin(SomeMeta)
    [] kind = "enum" -> EnumBegin(RndMeta(r))
    [] kind = "record" -> RecordBegin(RndMeta(r), SizeHint(Mix(r)))
    [] kind = "tuple" -> TupleBegin(RndMeta(r), SizeHint(Mix(r)))
    [] kind = "record_tuple" -> RecordTupleBegin(RndMeta(r), SizeHint(Mix(r)))
    [] kind = "val" -> ValOpen(FALSE)
    [] kind = "valc" -> ValOpen(TRUE)
OpenOk(kind, f) == kind # "emptyenum" /\ WantsValue(f) /\ (WantsVariant(f) => kind \notin {"map", "seq"})
                   /\ (f.k = "value" => kind \notin {"val", "valc"})

\* The token that starts the next entry of the container on top.
ItemTok(f, r) ==
  CASE f.k = "map" -> MapKeyBegin
    [] f.k = "seq" -> SeqValueBegin
    [] f.k = "record" -> RecordValueBegin(Pick(r, TagPool), Pick(Mix(r), LabelPool))
    [] f.k = "tuple" -> TupleValueBegin(Pick(r, TagPool), IF r % 3 = 0 THEN Pick(Mix(r), IdxPool) ELSE Idx(ToString(f.got), TRUE))
    [] f.k = "record_tuple" ->
         RecordTupleValueBegin(Pick(r, TagPool), Pick(Mix(r), LabelPool),
                               IF r % 3 = 0 THEN Pick(Mix(Mix(r)), IdxPool) ELSE Idx(ToString(f.got), TRUE))
EndTok(f) ==
  CASE f.k = "map" -> MapEnd [] f.k = "seq" -> SeqEnd [] f.k = "record" -> RecordEnd(f.m)
    [] f.k = "tuple" -> TupleEnd(f.m) [] f.k = "record_tuple" -> RecordTupleEnd(f.m) [] f.k = "enum" -> EnumEnd(f.m)

\* The token that is forced once a value is complete, if any.
IsForced(f) == f.st \in {"kclose", "mid", "vclose", "close"}
Forced(f) ==
  CASE f.st = "kclose" -> MapKeyEnd
    [] f.st = "mid" -> MapValueBegin
    [] f.st = "vclose" -> MapValueEnd
    [] f.k = "seq" -> SeqValueEnd
    [] f.k = "tagged" -> TaggedEnd(f.m)
    [] f.k = "enum" -> EnumEnd(f.m)
    [] f.k = "value" -> ValClose
    [] f.k = "record" -> RecordValueEnd(f.cur.t, f.cur.lab)
    [] f.k = "tuple" -> TupleValueEnd(f.cur.t, f.cur.idx)
    [] f.k = "record_tuple" -> RecordTupleValueEnd(f.cur.t, f.cur.lab, f.cur.idx)

\* Take tokens ts, then everything that is forced: <<stack, tokens>>.
RECURSIVE Advance(_, _, _)
Advance(s, out, ts) ==
  IF ts # <<>> THEN Advance(Step(s, Head(ts)), Append(out, Head(ts)), Tail(ts))
  ELSE IF s # Reject /\ IsForced(Top(s)) THEN Advance(s, out, <<Forced(Top(s))>>)
  ELSE <<s, out>>

-----------------------------------------------------------------------------
(* How many more tokens a stack needs at least, so that every prefix that  *)
(* is generated can be completed within MaxToks.                           *)

ItemCost(k) == IF k = "map" THEN 6 ELSE 3
Rest(f, started) == IF f.n = -1 THEN 0 ELSE f.n - f.got - (IF started THEN 1 ELSE 0)
CloseCost(f) ==
  CASE f.k = "root" -> 0
    [] f.k \in {"tagged", "enum", "value"} -> 1
    [] f.st = "item" -> Rest(f, FALSE) * ItemCost(f.k) + 1
    [] f.st = "kval" -> 4 + Rest(f, TRUE) * 6 + 1
    [] f.st = "vval" -> 1 + Rest(f, TRUE) * 6 + 1
    [] f.st = "val" -> 1 + Rest(f, TRUE) * ItemCost(f.k) + 1
    [] OTHER -> 1
Needs(s) == FoldLeft(LAMBDA a, f : a + CloseCost(f), 0, s)
            + (IF WantsValue(Top(s)) THEN 1 ELSE 0)

Take(ts) ==
  LET r == Advance(stack, toks, ts) IN
  /\ r[1] # Reject
  /\ Len(r[2]) + Needs(r[1]) <= MaxToks
  /\ stack' = r[1]
  /\ toks' = r[2]
  /\ rng' = Mix(rng)

-----------------------------------------------------------------------------
(* Large values: containers of many entries, deep nesting, long texts and  *)
(* texts in many pieces.  Nothing may depend on sizes.                     *)

BigLeaves == SelectSeq(<<"int", "text", "bool", "number", "binary", "float", "null", "tag">>, LAMBDA k : k \in Leaves)
BigLeaf(i) == LeafToks(BigLeaves[1 + (i % Len(BigLeaves))], (i * 7919 + 101) % 65537)
\* decimal digits of i as code points
DigitCps(i) == (IF i >= 100 THEN <<48 + ((i \div 100) % 10)>> ELSE <<>>) \o (IF i >= 10 THEN <<48 + ((i \div 10) % 10)>> ELSE <<>>) \o <<48 + (i % 10)>>
BigLab(i) == Lab(<<102>> \o DigitCps(i), TRUE, TRUE)
BigIdx(i) == Idx(ToString(i), TRUE)
BigMeta == Meta("T1", Lab(<<66>>, TRUE, FALSE), Idx("300", FALSE))
BigEntry(k, i, x) ==
  CASE k = "seq" -> <<SeqValueBegin>> \o x \o <<SeqValueEnd>>
    [] k = "map" -> <<MapKeyBegin, TextBegin(-1), TextFrag(<<107>> \o DigitCps(i), TRUE), TextEnd, MapKeyEnd, MapValueBegin>> \o x \o <<MapValueEnd>>
    [] k = "record" -> <<RecordValueBegin(NoTag, BigLab(i))>> \o x \o <<RecordValueEnd(NoTag, BigLab(i))>>
    [] k = "tuple" -> <<TupleValueBegin("T2", BigIdx(i))>> \o x \o <<TupleValueEnd("T2", BigIdx(i))>>
    [] k = "record_tuple" -> <<RecordTupleValueBegin(NoTag, BigLab(i), BigIdx(i))>> \o x \o <<RecordTupleValueEnd(NoTag, BigLab(i), BigIdx(i))>>
BigOpen(k, n) ==
  CASE k = "map" -> MapBegin(n) [] k = "seq" -> SeqBegin(n) [] k = "record" -> RecordBegin(BigMeta, n)
    [] k = "tuple" -> TupleBegin(BigMeta, n) [] k = "record_tuple" -> RecordTupleBegin(BigMeta, n)
BigEnd(k) ==
  CASE k = "map" -> MapEnd [] k = "seq" -> SeqEnd [] k = "record" -> RecordEnd(BigMeta)
    [] k = "tuple" -> TupleEnd(BigMeta) [] k = "record_tuple" -> RecordTupleEnd(BigMeta)
\* One layer around x.
Layer(k, i, x) ==
  CASE k \in {"seq", "map", "record", "tuple", "record_tuple"} -> <<BigOpen(k, IF i % 2 = 0 THEN 1 ELSE -1)>> \o BigEntry(k, i, x) \o <<BigEnd(k)>>
    [] k = "tagged" -> <<TaggedBegin(BigMeta)>> \o x \o <<TaggedEnd(BigMeta)>>
    [] k = "some" -> <<TaggedBegin(SomeMeta)>> \o x \o <<TaggedEnd(SomeMeta)>>
    [] k = "enum" -> LET m == Meta(NoTag, BigLab(i), BigIdx(i)) IN <<EnumBegin(m)>> \o <<TupleBegin(m, 1), TupleValueBegin(NoTag, BigIdx(0))>> \o x \o <<TupleValueEnd(NoTag, BigIdx(0)), TupleEnd(m)>> \o <<EnumEnd(m)>>
    [] k = "enums" -> LET m == Meta(NoTag, BigLab(i), BigIdx(i)) IN <<EnumBegin(m)>> \o x \o <<EnumEnd(m)>>
    [] k = "val" -> <<ValOpen(FALSE)>> \o <<TaggedBegin(BigMeta)>> \o x \o <<TaggedEnd(BigMeta)>> \o <<ValClose>>
    [] k = "valc" -> <<ValOpen(TRUE)>> \o <<TaggedBegin(BigMeta)>> \o x \o <<TaggedEnd(BigMeta)>> \o <<ValClose>>
BigKinds == SelectSeq(<<"seq", "map", "record", "tuple", "record_tuple">>, LAMBDA k : k \in Openers)
DeepKinds == SelectSeq(<<"seq", "map", "record", "tuple", "record_tuple", "tagged", "some", "enum", "val", "valc">>, LAMBDA k : k \in Openers)
BigText(pieces, len) ==
  <<TextBegin(-1)>> \o [i \in 1..pieces |-> TextFrag([j \in 1..len |-> <<97, 98, 34, 233, 99, 128512, 92, 100, 10>>[1 + ((i + j) % 9)]], i % 3 # 0)] \o <<TextEnd>>
BigBin(pieces, len) == <<BinBegin(-1)>> \o [i \in 1..pieces |-> BinFrag([j \in 1..len |-> (i * 7 + j) % 256], i % 3 # 0)] \o <<BinEnd>>
\* b: what is large, k: the kind of container, p: pieces or a seed, n: the size
BigToks(sh) ==
  CASE sh.b = "wide" -> <<BigOpen(sh.k, IF sh.n % 2 = 0 THEN sh.n ELSE -1)>> \o FoldLeft(LAMBDA a, i : a \o BigEntry(sh.k, i - 1, BigLeaf(i)), <<>>, [i \in 1..sh.n |-> i]) \o <<BigEnd(sh.k)>>
    [] sh.b = "deep" -> FoldLeft(LAMBDA x, i : Layer(sh.k, i, x), IF sh.k = "enums" THEN <<TagTok(BigMeta)>> ELSE BigText(1, 3), [i \in 1..sh.n |-> i])
    [] sh.b = "mixed" -> FoldLeft(LAMBDA x, i : Layer(DeepKinds[1 + (((i * 7919 + sh.p) \div 13) % Len(DeepKinds))], i, x), BigText(2, 3), [i \in 1..sh.n |-> i])
    [] sh.b = "text" -> BigText(sh.p, sh.n)
    [] sh.b = "binary" -> BigBin(sh.p, sh.n)
BigShapes ==
  [b : {"wide"}, k : Range(BigKinds), p : {0}, n : Big]
  \cup [b : {"deep"}, k : Range(DeepKinds) \cup (IF "enum" \in Openers THEN {"enums"} ELSE {}), p : {0}, n : {n \div 4 : n \in Big}]
  \cup [b : {"mixed"}, k : {"mixed"}, p : 0..3, n : {n \div 5 : n \in Big}]
  \cup [b : {"text"}, k : {"text"}, p : {1}, n : {4 * n : n \in Big}] \cup [b : {"text"}, k : {"text"}, p : Big, n : {1, 3}]
  \cup (IF "binary" \in Leaves THEN [b : {"binary"}, k : {"binary"}, p : {1}, n : {3 * n : n \in Big}] \cup [b : {"binary"}, k : {"binary"}, p : Big, n : {2}] ELSE {})
BigInit ==
  LET shapes == SetToSeq(BigShapes) IN
  \E i \in 1..Len(shapes) :
    /\ i % atoi(IOEnv.SVH_PARTS) = atoi(IOEnv.SVH_PART)
    /\ toks = BigToks(shapes[i])
    /\ stack = Steps(InitStack, BigToks(shapes[i]))

GInit == rng \in Seeds /\ hints = 0 /\ done = FALSE
         /\ IF Big = {} THEN toks = <<>> /\ stack = InitStack ELSE BigInit

\* Nothing but containers of exactly one value is open.
OnlyWrappers(s) == \A i \in 1..Len(s) : s[i].k \in {"root", "tagged", "enum", "value"}
Leaf == \E kind \in Leaves :
  /\ ~done /\ LeafOk(kind, Top(stack))
  /\ Deep => (Len(toks) >= MaxToks \div 6 \/ ~OnlyWrappers(stack))
  /\ Take(LeafToks(kind, rng))
  /\ UNCHANGED <<hints, done>>
Open == \E kind \in Openers :
  /\ ~done /\ Len(stack) <= MaxDepth /\ OpenOk(kind, Top(stack))
  /\ Take(<<OpenTok(kind, rng)>>)
  /\ UNCHANGED <<hints, done>>
Item ==
  /\ ~done /\ Top(stack).st = "item"
  /\ Top(stack).got < (IF Top(stack).n = -1 THEN MaxItems ELSE Top(stack).n)
  /\ Take(<<ItemTok(Top(stack), rng)>>)
  /\ UNCHANGED <<hints, done>>
End ==
  /\ ~done
  /\ \/ Top(stack).st = "item" /\ HintOk(Top(stack))
     \/ Top(stack).st = "var" /\ Top(stack).k = "enum" /\ "emptyenum" \in Openers
  /\ (Deep /\ Top(stack).st = "item" /\ Top(stack).n = -1) => (Top(stack).got > 0 \/ (rng \div 8) % 4 = 0 \/ Len(toks) > MaxToks \div 2)
  /\ Take(<<EndTok(Top(stack))>>)
  /\ UNCHANGED <<hints, done>>
Hint ==
  /\ ~done /\ hints < MaxHints /\ ~Done(stack)
  /\ Take(<<TagHint("T1")>>)
  /\ hints' = hints + 1
  /\ UNCHANGED done

Produce == Leaf \/ Open \/ Item \/ End \/ Hint
\* The value is complete; Emit (in the modules that extend this one) records it.
Complete == ~done /\ Done(stack)

TypeOK == stack # Reject /\ Len(toks) <= MaxToks
\* The generator and the acceptor agree, and nothing is ever stuck.
Sound == Complete => Accepts(toks)
CanFinish == Len(toks) + Needs(stack) <= MaxToks
=============================================================================
