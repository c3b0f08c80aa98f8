------------------------------- MODULE MCFail -------------------------------
(***************************************************************************)
(* A value gives calls to a chain of adapters, each of which hands them on *)
(* at once or holds back a bounded number of them; the target fails at     *)
(* some call, or the value does.  Whatever the adapters hold back, what    *)
(* the target saw is accepted by SvalFail.                                 *)
(***************************************************************************)
EXTENDS SvalFail
CONSTANTS MaxCalls, Adapters, MaxHeld
VARIABLES n, breaks, given, held, st, result
vars == <<n, breaks, given, held, st, result>>
Init == /\ n \in 0..MaxCalls /\ breaks \in 0..MaxCalls + 1 /\ given = 0
        /\ held = [a \in 1..Adapters |-> 0]
        /\ \E at \in 0..MaxCalls : st = FInit(at)
        /\ result = "none"
Going == result = "none"
Give == Going /\ given < n /\ given < breaks /\ held[1] < MaxHeld
        /\ given' = given + 1 /\ held' = [held EXCEPT ![1] = @ + 1] /\ UNCHANGED <<n, breaks, st, result>>
Pass(a) == Going /\ a < Adapters /\ held[a] > 0 /\ held[a + 1] < MaxHeld
           /\ held' = [held EXCEPT ![a] = @ - 1, ![a + 1] = @ + 1] /\ UNCHANGED <<n, breaks, given, st, result>>
\* The last adapter calls the target; a failure unwinds through all of them.
Call == Going /\ held[Adapters] > 0
        /\ st' = FStep(st) /\ held' = [held EXCEPT ![Adapters] = @ - 1]
        /\ result' = (IF st'.failed THEN "err" ELSE "none") /\ UNCHANGED <<n, breaks, given>>
\* The value itself fails; what is held back is dropped.
Break == Going /\ given = breaks /\ given < n /\ result' = "err" /\ UNCHANGED <<n, breaks, given, held, st>>
End == Going /\ given = n /\ (\A a \in 1..Adapters : held[a] = 0) /\ result' = "ok" /\ UNCHANGED <<n, breaks, given, held, st>>
Next == Give \/ (\E a \in 1..Adapters : Pass(a)) \/ Call \/ Break \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Quiet == st.after = 0
Told == (result # "none" /\ (st.failed \/ (breaks < n /\ given = breaks))) => result = "err"
\* A value that does not break is exactly what SvalFail describes.
Conforms == (result # "none" /\ breaks >= n) =>
  FRunOk(n, TRUE, [at |-> st.at, made |-> st.made, same |-> TRUE, after |-> st.after, ok |-> result = "ok"])
Ends == <>(result # "none")
=============================================================================
