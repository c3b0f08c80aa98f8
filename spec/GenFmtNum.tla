----------------------------- MODULE GenFmtNum ------------------------------
(* Behaviours for M01: numbers of every kind and magnitude.                *)
EXTENDS SvalFmt, Decimals, Json, CSV, IOUtils
VARIABLES x, done
vars == <<x, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
Emit(t) == CSVWrite("%1$s", <<ToJson([toks |-> <<t>>, out |-> Scalar(t)])>>, Out)
Init == x = <<>> /\ done = FALSE
IntStep == \E i \in Ints :
  /\ InRange(i.kind, i.neg, i.k, i.delta) /\ i.k % Parts = Part
  /\ ~(i.neg /\ i.k = 0 /\ i.delta = -1)
  /\ LET t == Num(i.kind, (IF i.neg THEN "-" ELSE "") \o DText(Near(i.k, i.delta))) IN Emit(t) /\ x' = <<t>>
Mantissas == {"1", "-2.5", "9.999999999999999", "1.2345678901234567", "-7.0064923"}
FloatStep == \E s \in Mantissas, k \in {"f32", "f64"}, e \in -330..310 :
  /\ e % Parts = Part /\ (k = "f32" => e \in -50..38)
  /\ LET t == Num(k, s \o "e" \o ToString(e)) IN Emit(t) /\ x' = <<t>>
Next == ~done /\ done' = TRUE /\ (IntStep \/ FloatStep)
Spec == Init /\ [][Next]_vars
OnePiece == done => Len(Scalar(x[1])) = 1
=============================================================================
