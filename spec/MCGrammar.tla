----------------------------- MODULE MCGrammar ------------------------------
(* The grammar on its own: generator and acceptor agree on every behaviour *)
(* within the bounds and every prefix can be completed.                    *)
EXTENDS SvalGen
MCSeeds == {1, 2, 3, 77}
Finish == Complete /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars
NotStuck == done \/ ENABLED Next
=============================================================================
