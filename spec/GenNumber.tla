----------------------------- MODULE GenNumber ------------------------------
(***************************************************************************)
(* Number texts of the documented grammar, one character at a time, cut    *)
(* into fragments; the non-finite texts; and for the fixed width kinds all *)
(* powers of two and their neighbours and all float exponents.             *)
(***************************************************************************)
EXTENDS SvalNumber, Decimals, FiniteSets, FiniteSetsExt, Json, CSV, IOUtils
CONSTANTS MaxLen, MaxFrags, Alphabet, What

VARIABLES s, cuts, q, done
vars == <<s, cuts, q, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
Emit(v) == CSVWrite("%1$s", <<ToJson(v)>>, Out)

-----------------------------------------------------------------------------
Special == << <<"n","a","n">>, <<"N","a","N">>, <<"N","A","N">>, <<"i","n","f">>, <<"-","i","n","f">>, <<"+","i","n","f">>, <<"I","N","F">>,
  <<"-","I","n","f">>, <<"i","n","f","i","n","i","t","y">>, <<"-","i","n","f","i","n","i","t","y">>, <<"+","I","n","f","i","n","i","t","y">>,
  <<"s","n","a","n">>, <<"s","N","a","N">>, <<"-","n","a","n">>, <<"-","s","n","a","n">>, <<"+","n","a","n">> >>
FragsOf(t, cs) ==   \* cs: set of positions before which a fragment starts
  LET at == SetToSortSeq(cs \cup {1, Len(t) + 1}, <) IN [i \in 1..(Len(at) - 1) |-> SubSeq(t, at[i], at[i + 1] - 1)]

Mans == {"0", "1", "half", "ones", "ones-1", "alt", "third"}
Floats == [kind : {"f64"}, e : 0..2047, man : Mans, neg : BOOLEAN] \cup [kind : {"f32"}, e : 0..255, man : Mans, neg : BOOLEAN]

-----------------------------------------------------------------------------
AlphaSeq == SetToSeq(Alphabet)
Init == s = <<>> /\ cuts = {} /\ q = "start" /\ done = FALSE
Add == What = "text" /\ ~done /\ Len(s) < MaxLen /\ \E c \in Alphabet :
         /\ NStep(q, c) # "no"
         /\ q = "exp" => Len(s) - Find(s, {"e", "E"}) < 8    \* TLC's integers
         /\ q' = NStep(q, c) /\ s' = Append(s, c) /\ UNCHANGED <<cuts, done>>
\* cut in front of the character that comes next
Cut == What = "text" /\ ~done /\ Len(s) < MaxLen /\ s # <<>> /\ Cardinality(cuts) + 1 < MaxFrags /\ (Len(s) + 1) \notin cuts
       /\ cuts' = cuts \cup {Len(s) + 1} /\ UNCHANGED <<s, q, done>>
CodeOf == [c \in Alphabet |-> CHOOSE i \in 1..Len(AlphaSeq) : AlphaSeq[i] = c]
Mine == MaxLen > 8 \/ FoldLeft(LAMBDA a, c : (a * 7 + CodeOf[c]) % 8009, Cardinality(cuts), s) % Parts = Part
TextVector == LET c == Canon(s) IN [kind |-> "text", s |-> s, frags |-> FragsOf(s, cuts), neg |-> c.neg, dig |-> c.dig, exp |-> c.exp, fin |-> TRUE]
FinishText == What = "text" /\ ~done /\ q \in NDone /\ (\A c \in cuts : c <= Len(s)) /\ Mine /\ Emit(TextVector)
              /\ done' = TRUE /\ UNCHANGED <<s, cuts, q>>
DoSpecial == What = "special" /\ ~done /\ \E i \in 1..Len(Special) : \E cs \in SUBSET (2..Len(Special[i])) :
    /\ Cardinality(cs) <= 3 /\ (i + Cardinality(cs)) % Parts = Part
    /\ Emit([kind |-> "text", s |-> Special[i], frags |-> FragsOf(Special[i], cs), neg |-> FALSE, dig |-> <<>>, exp |-> 0, fin |-> FALSE])
    /\ s' = Special[i] /\ cuts' = cs /\ done' = TRUE /\ UNCHANGED q
DoInt == What = "fixed" /\ ~done /\ \E x \in Ints :
    /\ InRange(x.kind, x.neg, x.k, x.delta) /\ x.k % Parts = Part
    /\ ~(x.neg /\ x.k = 0 /\ x.delta = -1)
    /\ s' = <<x>> /\ done' = TRUE /\ UNCHANGED <<cuts, q>>
    /\ Emit([kind |-> x.kind, v |-> (IF x.neg THEN "-" ELSE "") \o DText(Near(x.k, x.delta))])
DoFloat == What = "fixed" /\ ~done /\ \E x \in Floats :
    /\ x.e % Parts = Part
    /\ s' = <<x>> /\ done' = TRUE /\ UNCHANGED <<cuts, q>>
    /\ Emit([kind |-> x.kind, e |-> x.e, man |-> x.man, neg |-> x.neg, fin |-> (IF x.kind = "f64" THEN x.e < 2047 ELSE x.e < 255)])
Next == Add \/ Cut \/ FinishText \/ DoSpecial \/ DoInt \/ DoFloat
Spec == Init /\ [][Next]_vars

\* The conversion gives a JSON number with the same value.
ConversionRight == (What = "text" /\ done) => LET o == WOut(s) IN IsNumber(s) /\ IsJsonNumber(o) /\ Canon(o) = Canon(s)
SpecialNull == (What = "special" /\ done) => WOut(s) = <<"null">>
=============================================================================
