------------------------------ MODULE GenJson -------------------------------
(* Behaviours for J01: token sequences with the document they stand for.   *)
EXTENDS SvalGen, SvalJson, Json, CSV, IOUtils

Out == IOEnv.SVH_OUT
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

Vector == [toks |-> toks, json |-> JsonOf(toks)]
\* A text that is a whole JSON value is written as it is; as a key it may be
\* anything, and nothing is promised about it.
RECURSIVE RawKeys(_)
RawKeys(x) ==
  CASE x.j = "arr" -> \E i \in 1..Len(x.xs) : RawKeys(x.xs[i])
    [] x.j = "obj" -> \E i \in 1..Len(x.xs) : x.xs[i].key.j = "raw" \/ RawKeys(x.xs[i].x)
    [] OTHER -> FALSE
Finish == Complete /\ (IF RawKeys(JsonOf(toks)) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Vector)>>, Out))
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars

\* The one-pass writer writes exactly the document the tree stands for.
WriterAgrees == Complete =>
  LET w == Write(toks) x == JsonOf(toks) IN
  IF IsErr(x) THEN w.err
  ELSE ~w.err /\ RawDec(Tidy(FixNum(Tidy(w.out)))) = RawDec(Tidy(Render(x)))
=============================================================================
