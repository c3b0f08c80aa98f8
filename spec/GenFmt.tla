------------------------------- MODULE GenFmt -------------------------------
(* Behaviours for M01: token sequences with the text they are shown as.    *)
EXTENDS SvalGen, SvalFmt, Json, CSV, IOUtils

Out == IOEnv.SVH_OUT
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

Vector == [toks |-> toks, out |-> FTidy(FmtOf(toks))]
Finish == Complete /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars
\* The one-pass writer writes what the tree stands for.
FWriterAgrees == Complete => FTidy(FWrite(toks)) = FTidy(FmtOf(toks))
FIsBalanced == Complete => FBalanced(FmtOf(toks))
=============================================================================
