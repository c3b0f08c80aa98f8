----------------------------- MODULE GenDerive ------------------------------
(* Declarations for G01.                                                   *)
EXTENDS SvalDerive, SvalGrammar, FiniteSets, Json, CSV, IOUtils
CONSTANTS Decls, MinMods, MaxMods, Names, Split, Wide, Pick
VARIABLES base, mods, seed, done
vars == <<base, mods, seed, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
SeedLo == atoi(IOEnv.SVH_SEED_LO)

D == [base |-> base, mods |-> mods, seed |-> seed]
\* Spread over the processes, and over types and names.
ANo == [a \in FieldAttrs \cup VariantAttrs \cup ContainerAttrs("") |-> CASE a = "tag" -> 1 [] a = "dup" -> 2 [] a = "transparent" -> 3 [] a = "dtag" -> 4 [] a = "skip" -> 5 [] a = "noskip" -> 6
  [] a = "flat" -> 7 [] a = "lab" -> 8 [] a = "labp" -> 9 [] a = "idx" -> 10 [] a = "idxn" -> 11 [] a = "idxp" -> 12 [] a = "unl" -> 13 [] a = "uni" -> 14 [] a = "disc" -> 15 [] a = "dyn" -> 16
  [] a = "unlv" -> 17 [] a = "univ" -> 18 [] a = "unknown" -> 19 [] OTHER -> 20]
Sum(ms) == FoldSet(LAMBDA m, s : s + m.v * 5 + m.p * 3 + ANo[m.a], 0, ms)
\* Pick attributes are chosen by the seed instead of one by one
Usable(b) == SelectSeq(SetToSeq(ModsOf(b)), LAMBDA m : m.a \notin {"dup", "transparent", "unknown"})
Picked(b, sd) == LET u == TLCEval(Usable(b)) IN {u[(((sd * 7919 + i * 104729) % 1000003) % Len(u)) + 1] : i \in 1..Pick}
Init == base \in Decls /\ seed \in {(SeedLo + i) % 997 : i \in 0..(Names - 1)} /\ mods = Picked(base, seed) /\ Compatible(mods) /\ done = FALSE
Add == ~done /\ Pick = 0 /\ Cardinality(mods) < MaxMods
       /\ \E m \in ModsOf(base) \ mods : Compatible(mods \cup {m}) /\ mods' = mods \cup {m}
       /\ UNCHANGED <<base, seed, done>>
Whole == ~done /\ Cardinality(mods) >= MinMods /\ (~Split \/ Sum(mods) % Parts = Part)
         /\ (~Wide \/ \E m \in mods : m.v = 0 /\ m.p = 0 /\ m.a \in {"dyn", "unlv", "univ"})
\* the seed also moves with the attributes, so that each meets several types
E == [D EXCEPT !.seed = seed + Sum(mods)]
Values == IF Rejected(E) THEN <<>> ELSE
  LET vs == IF IsEnum(base) THEN [i \in 1..Len(Enums[base]) |-> i] ELSE <<0>> IN
  [i \in 1..Len(vs) |-> [v |-> vs[i], toks |-> Derived(E, vs[i]),
     tag |-> IF (base = "newtype" /\ Has(E, 0, 0, "transparent")) \/ Has(E, 0, 0, "dyn") THEN OuterTag(Derived(E, vs[i])) ELSE TagOf(E, 0, 0)]]
Describe == [
  base |-> base, gen |-> GenOf(E), enum |-> IsEnum(base), reject |-> Rejected(E), seed |-> E.seed, name |-> TyNames[Pool(E.seed)].rs,
  attrs |-> Attrs(E, 0, 0) \ GenAttr, values |-> Values,
  bodies |-> [i \in 1..Cardinality(BodyNos(base)) |-> LET v == IF IsEnum(base) THEN i ELSE 0 b == BodyOf(base, v) IN
    [shape |-> b.shape, name |-> IF v = 0 THEN "" ELSE VariantName(Pool(E.seed), v).rs, attrs |-> IF v = 0 THEN {} ELSE Attrs(E, v, 0), disc |-> ToString(Disc(v)),
     fields |-> [p \in 1..b.n |-> [name |-> IF b.shape = "named" THEN FieldName(Pool(E.seed), p).rs ELSE "", ty |-> TypeName(E, v, p), attrs |-> Attrs(E, v, p)]]]]]
Finish == Whole /\ (IF Open(E) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Describe)>>, Out))
          /\ done' = TRUE /\ UNCHANGED <<base, mods, seed>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

Accepted == Whole /\ ~Open(E) /\ ~Rejected(E)
\* Every value is one complete, self-consistent sequence.
IsValue == Accepted => \A v \in BodyNos(base) : Accepts(Derived(E, v))
\* Variants that are told apart by position have different positions.
Distinct == (Accepted /\ IsEnum(base) /\ ~\E m \in mods : m.p = 0 /\ m.a \in IdxAttr \cup {"dyn", "univ"})
  => \A v, w \in BodyNos(base) : v # w => VariantIdx(E, v) # VariantIdx(E, w)
\* Derived values hold the data of their live fields, in order.
LiveData(v) == LET ps == SelectSeq([i \in 1..BodyOf(base, v).n |-> i], LAMBDA p : p \in Live(E, v)) IN
  Flatten([i \in 1..Len(ps) |->
    (IF BodyOf(base, v).shape # "newtype" /\ Labelled(E, v, ps[i]) THEN << <<"t", FieldLabel(E, v, ps[i]).s>> >> ELSE <<>>) \o Data(FieldToks(E, v, ps[i]))])
HoldsData == Accepted => \A v \in BodyNos(base) :
  (BodyOf(base, v).n > 0 /\ ~\E p \in 1..BodyOf(base, v).n : Has(E, v, p, "flat")) => Data(Derived(E, v)) = LiveData(v)
=============================================================================
