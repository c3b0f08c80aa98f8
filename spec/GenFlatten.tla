----------------------------- MODULE GenFlatten -----------------------------
(* Behaviours for F01.                                                     *)
EXTENDS SvalGen, SvalFlatten, Json, CSV, IOUtils

Out == IOEnv.SVH_OUT
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

TargetSeq == <<"map", "seq", "record", "tuple", "record_tuple">>
Pair(r) == <<TargetSeq[(r % 5) + 1], TargetSeq[((r \div 5) % 5) + 1]>>
Start(r) == (r \div 25) % 12
KeysKnown == LET es == TLCEval(Entries(Flat(toks))) IN \A i \in 1..Len(es) : es[i].e => KeyTextKnown(es[i].key)
Vector == LET p == Pair(rng) IN
  [toks |-> toks, start |-> Start(rng), pair |-> p, entries |-> Len(Entries(Flat(toks))),
   out |-> [t \in Targets |-> FlattenTo(t, toks, Start(rng))],
   twice |-> Around(p[2], Around(p[1], toks)),
   easy |-> [t \in Targets |-> EasyFlatten(t, toks)], easytwice |-> EasyTwice(p, toks)]
Finish == Complete /\ TLCEval(KeysKnown) /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars

\* Whatever is flattened, the value around it is well formed.
StaysBalanced == (Complete /\ KeysKnown) => \A t \in Targets : Accepts(Around(t, toks))
\* Flattening onto the same kind keeps what is there, and a sequence keeps all the values in order.
Bodies(toks0) == LET es == SelectSeq(Entries(toks0), LAMBDA e : e.e) IN [i \in 1..Len(es) |-> es[i].body]
KeepsValues == (Complete /\ KeysKnown) => \A t \in Targets :
  LET b == Bodies(Flat(toks)) IN Bodies(Around(t, toks)) = << <<Bool(TRUE)>> >> \o b \o << <<Bool(FALSE)>> >>
=============================================================================
