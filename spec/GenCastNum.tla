----------------------------- MODULE GenCastNum -----------------------------
(* Behaviours for V01: all integers next to a power of two, of every kind. *)
EXTENDS SvalCast, Decimals, Json, CSV, IOUtils
VARIABLES x, done
vars == <<x, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
Text(i) == (IF i.neg THEN "-" ELSE "") \o DText(Near(i.k, i.delta))
Tok(i) == Num(i.kind, Text(i))
Init == x = <<>> /\ done = FALSE
Next == ~done /\ \E i \in Ints :
  /\ InRange(i.kind, i.neg, i.k, i.delta) /\ i.k % Parts = Part
  /\ ~(i.neg /\ i.k = 0 /\ i.delta = -1)
  /\ CSVWrite("%1$s", <<ToJson([toks |-> <<Tok(i)>>, ask |-> Answers(Tok(i)), tag |-> NumberTag])>>, Out)
  /\ x' = <<i>> /\ done' = TRUE
Spec == Init /\ [][Next]_vars
\* The two ways of saying that a number fits agree.
RangesAgree == done => LET i == x[1] v == Text(i) IN \A kind \in IntKinds :
  (v = "0" \/ FitsKind(kind, v)) <=> (v = "0" \/ InRange(kind, i.neg, i.k, i.delta))
=============================================================================
