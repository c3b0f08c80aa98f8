----------------------------- MODULE GenFmtText -----------------------------
(* Behaviours for M01: texts in fragments, as a value and as it is shown.  *)
EXTENDS GenText, SvalFmt
FmtVector == [toks |-> <<TextBegin(-1)>> \o [i \in 1..Len(frags) |-> TextFrag(frags[i].s, frags[i].b)] \o <<TextEnd>>,
              out |-> FTidy(Quote \o Shown(Text) \o Quote)]
FmtFinish == ~done /\ (n > 0 \/ Part = 0) /\ CSVWrite("%1$s", <<ToJson(FmtVector)>>, Out) /\ done' = TRUE /\ UNCHANGED <<frags, n>>
FmtNext == Add \/ Cut \/ FmtFinish
FmtSpec == Init /\ [][FmtNext]_vars
DbgRoundTrip == done => UnDbg(Dbg(Text)) = Text
NoQuoteInside == done => LET d == Dbg(Text) IN \A i \in 1..Len(d) : d[i] >= 32 /\ (d[i] = 34 => i > 1 /\ d[i - 1] = 92)
=============================================================================
