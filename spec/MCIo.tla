-------------------------------- MODULE MCIo --------------------------------
(* The writer loop against every writer: pieces of the document are offered *)
(* until taken.                                                             *)
EXTENDS SvalIo
CONSTANTS MaxPieces, MaxPiece, MaxIntr
VARIABLES pieces, st, cur, left, result, evs, intr
vars == <<pieces, st, cur, left, result, evs, intr>>
Sum(p) == FoldLeft(LAMBDA a, x : a + x, 0, p)
Docs == UNION {[1..n -> 1..MaxPiece] : n \in 0..MaxPieces}
Init == \E p \in Docs : /\ pieces = p /\ st = IoInit(Sum(p)) /\ cur = 0 /\ left = 0 /\ result = "none" /\ evs = <<>> /\ intr = 0
NextPiece == result = "none" /\ left = 0 /\ cur < Len(pieces) /\ cur' = cur + 1 /\ left' = pieces[cur + 1] /\ UNCHANGED <<pieces, st, result, evs, intr>>
Write == result = "none" /\ left > 0 /\ \E r \in {"ok", "err", "intr"}, n \in 0..left :
  /\ (r # "ok" => n = 0) /\ (r = "intr" => intr < MaxIntr)
  /\ LET ev == [off |-> left, at |-> TRUE, r |-> r, n |-> n] IN
     /\ st' = IoStep(st, ev) /\ evs' = Append(evs, ev)
     /\ left' = left - n
     /\ intr' = IF r = "intr" THEN intr + 1 ELSE intr
     /\ result' = IF r = "err" \/ (r = "ok" /\ n = 0) THEN "err" ELSE "none"
  /\ UNCHANGED <<pieces, cur>>
End == result = "none" /\ left = 0 /\ cur = Len(pieces) /\ result' = "ok" /\ UNCHANGED <<pieces, st, cur, left, evs, intr>>
Next == NextPiece \/ Write \/ End
Spec == Init /\ [][Next]_vars
Conforms == result # "none" => IoAccepts(Sum(pieces), evs, result = "ok")
NeverBad == ~st.bad /\ st.pos <= st.len
=============================================================================
