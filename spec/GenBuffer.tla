----------------------------- MODULE GenBuffer ------------------------------
(* Behaviours for B01, B02 and B03.                                        *)
EXTENDS SvalGen, SvalBuffer, Json, CSV, IOUtils

Out == IOEnv.SVH_OUT
EnvSeeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

Prefix(s, i) == SubSeq(s, 1, i)
CompleteAt(f) == [i \in 1..Len(f) |-> Complete_(Collect(Prefix(f, i)))]
Vector == LET f == TLCEval(Flat(toks)) b == TLCEval(Collect(f)) IN
  [toks |-> toks, flat |-> f, out |-> BufStream(b.parts), lives |-> Lives(b.parts), complete |-> CompleteAt(f),
   astext |-> AsText(f), asbin |-> AsBin(f), easy |-> NoBufferNeeded(b)]
Finish == Complete /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<toks, stack, rng, hints>>
Next == Produce \/ Finish
Spec == GInit /\ [][Next]_gvars

Strip(toks_) == [i \in 1..Len(toks_) |->
  IF toks_[i].k \in {"text_begin", "binary_begin"} THEN [toks_[i] EXCEPT !.n = -1]
  ELSE IF toks_[i].k \in {"text_fragment", "binary_fragment"} THEN [toks_[i] EXCEPT !.b = FALSE] ELSE toks_[i]]
NonEmpty(toks_) == SelectSeq(toks_, LAMBDA t : ~(t.k \in {"text_fragment", "binary_fragment"} /\ t.s = <<>>))
\* The buffer is the identity up to how text is cut.
RoundTrip == Complete => LET b == Collect(Flat(toks)) IN
  ~b.err /\ Strip(BufStream(b.parts)) = NonEmpty(Merged(Strip(OuterHints(Flat(toks)))))
\* Complete exactly when one whole value was given.
CompleteExact == Complete => LET f == Flat(toks) IN
  \A i \in 1..Len(f) : Complete_(Collect(Prefix(f, i))) <=> Done(Steps(InitStack, Prefix(f, i)))
\* A buffered buffer is the same buffer.
Idempotent == Complete => LET o == BufStream(Collect(Flat(toks)).parts) IN BufStream(Collect(o).parts) = o
=============================================================================
