------------------------------ MODULE GenCast -------------------------------
(* Behaviours for V01: values of any shape.                                *)
EXTENDS SvalGen, SvalCast, Json, CSV, IOUtils

Out == IOEnv.SVH_OUT
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

Vector == [toks |-> toks, ask |-> Answers(TreeOf(toks)), tag |-> OuterTag(toks)]
Finish == Complete /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars

\* At most one kind of datum is held, and integers are answered monotonically.
Given(a, k) == a[k].a # "none"
OneKind == Complete => LET a == Answers(TreeOf(toks)) IN
  /\ Cardinality({c \in {"bool", "text", "binary", "f64"} : Given(a, c)}) + (IF \E k \in IntKinds : Given(a, k) THEN 1 ELSE 0) <= 1
  /\ \A k \in {"i8", "i16", "i32", "i64"} : Given(a, k) => Given(a, "i128")
  /\ \A k \in {"u8", "u16", "u32", "u64"} : Given(a, k) => Given(a, "u128")
=============================================================================
