----------------------------- MODULE SvalIdent ------------------------------
(***************************************************************************)
(* Tags are identities: two are equal iff they were made with the same     *)
(* name.  Indexes are integers; whatever type an index is made from, it is *)
(* that number, it compares by that number, and asking for a type gives    *)
(* that number if it fits and nothing otherwise.                           *)
(***************************************************************************)
EXTENDS Decimals, FiniteSets, SequencesExt
\* a number is its sign and its decimal digits
DLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j])
Zero(a) == a = <<0>>
Cmp(x, y) ==
  LET xn == x.neg /\ ~Zero(x.d) yn == y.neg /\ ~Zero(y.d) IN
  IF xn # yn THEN (IF xn THEN -1 ELSE 1)
  ELSE IF x.d = y.d THEN 0
  ELSE IF DLess(x.d, y.d) THEN (IF xn THEN 1 ELSE -1) ELSE (IF xn THEN -1 ELSE 1)
NText(x) == (IF x.neg /\ ~Zero(x.d) THEN "-" ELSE "") \o DText(x.d)

\* Names that differ a little: a changed, added, dropped or swapped character.
Name(n, base) == [i \in 1..n |-> base + ((i - 1) % 5)]
Variants(a) ==
  {a} \cup {[a EXCEPT ![i] = 122] : i \in 1..Len(a)} \cup {[a EXCEPT ![i] = 0] : i \in 1..Len(a)}
  \cup {Append(a, c) : c \in {0, 97}} \cup {SubSeq(a, 1, Len(a) - 1) : i \in 1..(IF Len(a) = 0 THEN 0 ELSE 1)}
  \cup {[a EXCEPT ![i] = a[j], ![j] = a[i]] : i, j \in 1..Len(a)}
  \cup {Tail(a) : i \in 1..(IF Len(a) = 0 THEN 0 ELSE 1)}

\* Names with the same 64 bit hash under the one the implementation uses to tell
\* tags apart quickly (computed outside; the hash is no part of what a tag is).
TwinA == <<48, 48, 48, 48, 48, 48, 48, 48, 97, 98, 99, 100, 101, 102, 103, 104>>
Twins == {TwinA,
  <<48, 48, 48, 48, 48, 48, 48, 50, 122, 98, 99, 100, 101, 102, 103, 40>>,
  <<48, 48, 48, 48, 48, 48, 48, 51, 105, 98, 99, 100, 101, 102, 103, 72>>,
  <<48, 48, 48, 48, 48, 48, 48, 56, 106, 98, 99, 100, 101, 102, 103, 104>>,
  <<48, 48, 48, 48, 48, 48, 51, 48, 125, 98, 99, 100, 101, 102, 7, 112>>}
=============================================================================
