------------------------------- MODULE SvalIo -------------------------------
(***************************************************************************)
(* Writing a document to something that may fail.  The document is len     *)
(* bytes; the implementation offers pieces of it to the writer, which      *)
(* answers ok with the number of bytes taken, intr (nothing taken, try     *)
(* again) or err.  IoStep is one such exchange as an observer sees it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

IoInit(len) == [len |-> len, pos |-> 0, dead |-> FALSE, bad |-> FALSE]
\* ev: off bytes were offered, at: they are the document's next bytes.
IoStep(st, ev) ==
  IF st.bad THEN st
  ELSE IF st.dead \/ ~ev.at \/ ev.n > ev.off \/ st.pos + ev.off > st.len THEN [st EXCEPT !.bad = TRUE]
  ELSE CASE ev.r = "intr" -> st
         [] ev.r = "err" -> [st EXCEPT !.dead = TRUE]
         [] ev.r = "ok" /\ ev.n = 0 /\ ev.off > 0 -> [st EXCEPT !.dead = TRUE]
         [] OTHER -> [st EXCEPT !.pos = @ + ev.n]
\* The result: success exactly if everything was delivered.
IoEnd(st, ok) == ~st.bad /\ (ok <=> (st.pos = st.len)) /\ (st.dead => ~ok)
IoAccepts(len, evs, ok) == IoEnd(FoldLeft(IoStep, IoInit(len), evs), ok)
=============================================================================
