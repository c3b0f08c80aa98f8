----------------------------- MODULE GenNested ------------------------------
(* Behaviours for N01.                                                     *)
EXTENDS SvalGen, SvalNested, Json, CSV, IOUtils

Out == IOEnv.SVH_OUT
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

Vector == LET f == TLCEval(Flat(toks)) IN
  [toks |-> toks, shown |-> Shown(f), minimal |-> Minimal(f), must |-> MustLive(toks, <<"any">>, <<>>, <<>>), variant |-> IsVariant(f),
   easy |-> [long |-> Unbuffered(toks), min |-> UnbufferedComputed(toks) /\ NoNewText(f), short |-> UnbufferedComputed(toks), variant |-> UnbufferedVariant(toks)]]
Finish == Complete /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars

\* Both views are one whole value, and the minimal one carries all the data.
Squash(d) == Flatten([i \in 1..Len(d) |-> IF d[i][1] = "t" THEN [j \in 1..Len(d[i][2]) |-> <<"t", d[i][2][j]>>] ELSE <<d[i]>>])
ViewsSound == Complete => LET f == Flat(toks) IN
  /\ Accepts(Shown(f)) /\ Squash(Data(Shown(f))) = Squash(Data(f))
  /\ Accepts(Minimal(f)) /\ Squash(Data(Minimal(f))) = Squash(Data(f))
\* The tree and the tokens are the same thing.
SameTree == Complete => LET f == Flat(toks) IN Shown(f) = Shown(Shown(f)) /\ TreeOf(Shown(f)) = TreeOf(Whole(Lower(Methods(GroupNames \ {"record_tuple"}), f)))
=============================================================================
