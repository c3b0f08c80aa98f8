------------------------------ MODULE GenIdent ------------------------------
(* Pairs of tags and pairs of indexes for L01.                             *)
EXTENDS SvalIdent, Json, CSV, IOUtils
CONSTANTS MaxName
VARIABLES x, done
vars == <<x, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
IdxKinds == {"u32", "u64", "i32", "i64"}
Number(i) == [neg |-> i.neg, d |-> Near(i.k, i.delta)]
Sensible(i) == i.kind \in IdxKinds /\ InRange(i.kind, i.neg, i.k, i.delta) /\ ~(i.neg /\ i.k = 0 /\ i.delta = -1)
Pivots == {i \in Ints : Sensible(i) /\ i.k \in {0, 1, 8, 31, 32, 63, 64}}
\* 2^k + delta fits kind2
Fits2(i, kind) == LET x0 == Number(i) IN (Zero(x0.d)) \/ InRange(kind, i.neg, i.k, i.delta)
Init == x = <<>> /\ done = FALSE
PickIdx == ~done /\ \E a \in {i \in Ints : Sensible(i) /\ i.k % Parts = Part}, b \in Pivots :
  /\ (a.k + a.delta + b.delta + b.k) % 5 = 0 \/ a.k = b.k
  /\ x' = <<Number(a), Number(b)>> /\ done' = TRUE
  /\ CSVWrite("%1$s", <<ToJson([v |-> "index", a |-> [kind |-> a.kind, v |-> NText(Number(a))], b |-> [kind |-> b.kind, v |-> NText(Number(b))],
                                 cmp |-> Cmp(Number(a), Number(b)), fits |-> [k \in IdxKinds |-> Fits2(a, k)]])>>, Out)
PickTag == ~done /\ \E n \in {m \in 0..MaxName : m % Parts = Part}, base \in {0, 97} :
  \E a \in Variants(Name(n, base)), b \in Variants(Name(n, base)) :
  /\ a = Name(n, base) \/ a = b \/ Len(a) # Len(b)
  /\ x' = <<>> /\ done' = TRUE
  /\ CSVWrite("%1$s", <<ToJson([v |-> "tag", a |-> a, b |-> b, eq |-> (a = b)])>>, Out)
PickTwin == ~done /\ Part = 0 /\ \E a \in Twins, b \in Twins, rest \in {<<>>, <<97>>, <<97, 98, 99, 100, 101>>} :
  /\ x' = <<>> /\ done' = TRUE
  /\ CSVWrite("%1$s", <<ToJson([v |-> "tag", a |-> a \o rest, b |-> b \o rest, eq |-> (a = b)])>>, Out)
Next == PickIdx \/ PickTag \/ PickTwin
Spec == Init /\ [][Next]_vars
\* The order is total and agrees with itself.
Antisym == (done /\ x # <<>>) => Cmp(x[1], x[2]) = 0 - Cmp(x[2], x[1])
=============================================================================
