------------------------------ MODULE SvalFail ------------------------------
(***************************************************************************)
(* Failure as an observer at the end of a chain of values, wrappers and    *)
(* adapters sees it.  The target is given calls; at one of them it may     *)
(* fail.  From then on nothing may be asked of it, and whoever started the *)
(* chain is told.  FStep is one call as the target sees it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

FInit(at) == [at |-> at, made |-> 0, failed |-> FALSE, after |-> 0]
FStep(st) ==
  IF st.failed THEN [st EXCEPT !.after = @ + 1]
  ELSE IF st.made = st.at THEN [st EXCEPT !.failed = TRUE]
  ELSE [st EXCEPT !.made = @ + 1]
\* A run against a target that fails at call r.at (counting from 0), where an
\* undisturbed run makes total calls and succeeds or is refused (ok).
FRunOk(total, ok, r) ==
  /\ r.after = 0 /\ r.same
  /\ IF r.at < total THEN r.made = r.at /\ ~r.ok
     ELSE r.made = total /\ r.ok = ok
FAccepts(case) == case.after = 0 /\ \A i \in 1..Len(case.runs) : FRunOk(case.total, case.ok, case.runs[i])
=============================================================================
