----------------------------- MODULE GenStream ------------------------------
(***************************************************************************)
(* Behaviours for S02, S03, S04 and E01: each complete token sequence with *)
(* its flat form and what streams implementing only some calls receive.    *)
(***************************************************************************)
EXTENDS SvalGen, SvalSem, Json, CSV, IOUtils

Out == IOEnv.SVH_OUT
SeedLo == atoi(IOEnv.SVH_SEED_LO)
SeedHi == atoi(IOEnv.SVH_SEED_HI)
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in SeedLo..SeedHi}

\* The groups of the streams in harness/src/rec.rs that rely on the trait's
\* own defaults, and groups chosen by the generator for one that is dynamic.
NamedProfiles == [
  minimal |-> {},
  maps |-> {"text_fragment", "map"},
  tagged |-> {"tagged", "binary", "u64", "i128"},
  recs |-> {"text_fragment", "tag", "enum", "u32", "i16", "f32", "record", "tuple"}]
GroupSeq == SetToSeq(GroupNames)
RECURSIVE RndGroups(_, _)
RndGroups(r, i) == IF i > Len(GroupSeq) THEN {} ELSE
  (IF (r \div 16) % 2 = 0 THEN {GroupSeq[i]} ELSE {}) \cup RndGroups(Mix(r + i), i + 1)
\* binary_fragment is only meaningful with the rest of binary
Sane(gs) == IF "binary" \in gs THEN gs ELSE gs \ {"binary_fragment"}
RndProfile == Sane(RndGroups(rng, 1))

Vector == LET f == TLCEval(Flat(toks)) IN
  [toks |-> toks, flat |-> f,
   named |-> [p \in DOMAIN NamedProfiles |-> Lower(Methods(NamedProfiles[p]), f)],
   rnd |-> [ms |-> Methods(RndProfile), out |-> Lower(Methods(RndProfile), f)]]

Finish == Complete /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars

\* The lowering itself is right: balanced, and no datum lost or reordered.
Squash(d) == Flatten([i \in 1..Len(d) |-> IF d[i][1] = "t" THEN [j \in 1..Len(d[i][2]) |-> <<"t", d[i][2][j]>>] ELSE <<d[i]>>])
LowerOk(gs) == LET f == Flat(toks) l == Lower(Methods(gs), f) IN
  /\ Balanced(l)
  /\ \A i \in 1..Len(l) : MethodOf(l[i]) \in Methods(gs)
  /\ Squash(Data(l)) = Squash(Data(f))
LoweringSound == Complete => /\ \A p \in DOMAIN NamedProfiles : LowerOk(NamedProfiles[p])
                             /\ LowerOk(RndProfile)
FullIsIdentity == Complete => Lower(Methods(GroupNames), Flat(toks)) = Flat(toks)
FlatBalanced == Complete => Balanced(Flat(toks))
=============================================================================
