------------------------------ MODULE GenText -------------------------------
(***************************************************************************)
(* Texts built one character at a time and cut into fragments anywhere,    *)
(* for J02, M01 and B03.                                                   *)
(***************************************************************************)
EXTENDS SvalEscape, Json, CSV, IOUtils
CONSTANTS MaxLen, MaxFrags, Chars, FreeB
\* FreeB: every choice of long-lived and short-lived fragments

VARIABLES frags, n, done
vars == <<frags, n, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
AllChars == (0..31) \cup {34, 39, 47, 92, 97, 98, 110, 117, 48, 123, 127, 128, 133, 160, 233, 769, 2047, 2048, 8203, 8232, 8233, 55295, 57344, 65039, 65279, 65533, 65535, 65536, 128512, 1114111}
FewChars == {0, 10, 31, 34, 39, 92, 97, 117, 127, 233, 8232, 128512}
ShortChars == {97, 233, 128512}
Set == CASE Chars = "all" -> AllChars [] Chars = "few" -> FewChars [] Chars = "short" -> ShortChars
Order == SetToSeq(Set)

B(k) == IF FreeB THEN BOOLEAN ELSE {(k + Part) % 3 # 0}
Frag(s, b) == [s |-> s, b |-> b]
Init == n = 0 /\ done = FALSE /\ \E b \in B(0) : frags = <<Frag(<<>>, b)>>
Add == ~done /\ n < MaxLen
       /\ \E i \in 1..Len(Order) :
            /\ n = 0 => i % Parts = Part
            /\ frags' = [frags EXCEPT ![Len(frags)].s = Append(@, Order[i])]
       /\ n' = n + 1 /\ UNCHANGED done
Cut == ~done /\ Len(frags) < MaxFrags /\ \E b \in B(Len(frags)) : frags' = Append(frags, Frag(<<>>, b))
       /\ UNCHANGED <<n, done>>
Text == Flatten([i \in 1..Len(frags) |-> frags[i].s])
Vector == [s |-> Text, frags |-> frags, bytes |-> Utf8Len(Text)]
Finish == ~done /\ (n > 0 \/ Part = 0) /\ CSVWrite("%1$s", <<ToJson(Vector)>>, Out) /\ done' = TRUE /\ UNCHANGED <<frags, n>>
Next == Add \/ Cut \/ Finish
Spec == Init /\ [][Next]_vars

RoundTrip == done => Decode(Escaped(Text)) = Text
NothingElse == done => \A i \in 1..Len(Text) : MustEscape(Text[i]) \/ EscCp(Text[i]) = <<Text[i]>>
FragmentIndependent == done => Flatten([i \in 1..Len(frags) |-> Escaped(frags[i].s)]) = Escaped(Text)
=============================================================================
