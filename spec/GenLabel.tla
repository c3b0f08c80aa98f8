------------------------------ MODULE GenLabel ------------------------------
(* Histories of operations on labels for L01, and the states they lead to. *)
EXTENDS SvalLabel, Json, CSV, IOUtils
CONSTANTS Steps
VARIABLES ops, seen, done
vars == <<slots, sources, ops, seen, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
AllOps == Ops
FewTexts == {<<97>>, <<97, 98>>}
MoreTexts == {<<>>, <<97>>, <<97, 233>>}
Show(sl) == [j \in Slots |-> Seen(sl[j])]
Init == LInit /\ ops = <<>> /\ seen = <<>> /\ done = FALSE
First(op) == CASE op.o = "fill" -> op.src [] op.o \in {"static", "owned"} -> op.d + 3 [] OTHER -> 0
Do == ~done /\ Len(ops) < Steps /\ \E op \in AllOps :
  /\ Can(op)
  \* pieces of the work: by the second step
  /\ Len(ops) = 1 => (First(op) + Len(op.o)) % Parts = Part
  /\ slots' = SlotsAfter(op) /\ sources' = SourcesAfter(op)
  /\ ops' = Append(ops, op) /\ seen' = Append(seen, Show(SlotsAfter(op))) /\ UNCHANGED done
Finish == ~done /\ Len(ops) = Steps /\ done' = TRUE
  /\ CSVWrite("%1$s", <<ToJson([v |-> "label", ops |-> ops, seen |-> seen])>>, Out)
  /\ UNCHANGED <<slots, sources, ops, seen>>
Next == Do \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
