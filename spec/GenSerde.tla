------------------------------ MODULE GenSerde ------------------------------
(* Behaviours for D01 and D02.                                             *)
EXTENDS SvalGen, SvalSerde, Json, CSV, IOUtils

CONSTANT Kind   \* "raw": as generated; "nice": with the names and indexes serde needs

Out == IOEnv.SVH_OUT
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

\* Unlabelled things stay unlabelled in some behaviours.
In == IF Kind = "nice" THEN Nice(toks, (rng \div 4) % 4 # 0) ELSE toks
SerdeTree == TreeOf(Lower(Methods(GroupNames \ {"record_tuple"}), Flat(In)))
Vector == LET x == SerdeTree ok == HasForm(x) IN
  IF ok THEN LET y == SerdeOf(x) IN [toks |-> In, ok |-> TRUE, serde |-> y, back |-> ToksOf(y), easy |-> Unbuffered(In), easydyn |-> Unbuffered(Flat(In))]
  ELSE [toks |-> In, ok |-> FALSE]
Finish == Complete /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars

\* serde -> sval -> serde is the identity, and what comes out is one value.
ThereAndBack == Complete => LET x == SerdeTree IN HasForm(x) =>
  LET y == SerdeOf(x) b == ToksOf(y) IN
  /\ Accepts(b)
  /\ HasForm(TreeOf(b))
  /\ SerdeOf(TreeOf(b)) = y
=============================================================================
