----------------------------- MODULE SvalNumber -----------------------------
(***************************************************************************)
(* Arbitrary precision number text: the documented grammar of              *)
(* tags::NUMBER, the number it stands for, the grammar of JSON numbers and *)
(* a one-pass, one-character-at-a-time conversion between them.            *)
(* Characters are strings of length one.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]

\* [+-]? [0-9]+ (\. [0-9]+)? ([eE] [+-]? [0-9]+)?
NStep(q, c) ==
  CASE q = "start" -> IF c \in {"+", "-"} THEN "sign" ELSE IF IsDigit(c) THEN "int" ELSE "no"
    [] q = "sign" -> IF IsDigit(c) THEN "int" ELSE "no"
    [] q = "int" -> IF IsDigit(c) THEN "int" ELSE IF c = "." THEN "dot" ELSE IF c \in {"e", "E"} THEN "e" ELSE "no"
    [] q = "dot" -> IF IsDigit(c) THEN "frac" ELSE "no"
    [] q = "frac" -> IF IsDigit(c) THEN "frac" ELSE IF c \in {"e", "E"} THEN "e" ELSE "no"
    [] q = "e" -> IF c \in {"+", "-"} THEN "esign" ELSE IF IsDigit(c) THEN "exp" ELSE "no"
    [] q = "esign" -> IF IsDigit(c) THEN "exp" ELSE "no"
    [] q = "exp" -> IF IsDigit(c) THEN "exp" ELSE "no"
    [] OTHER -> "no"
NDone == {"int", "frac", "exp"}
\* JSON: no plus sign in front, no leading zeroes.
JStep(q, c) ==
  CASE q = "start" -> IF c = "-" THEN "sign" ELSE IF c = "0" THEN "zero" ELSE IF IsDigit(c) THEN "int" ELSE "no"
    [] q = "sign" -> IF c = "0" THEN "zero" ELSE IF IsDigit(c) THEN "int" ELSE "no"
    [] q = "zero" -> IF c = "." THEN "dot" ELSE IF c \in {"e", "E"} THEN "e" ELSE "no"
    [] OTHER -> NStep(q, c)
JDone == NDone \cup {"zero"}
IsNumber(s) == FoldLeft(NStep, "start", s) \in NDone
IsJsonNumber(s) == FoldLeft(JStep, "start", s) \in JDone

\* The number: (sign, significant digits, power of ten), unique per number.
Find(s, cs) == IF \E i \in 1..Len(s) : s[i] \in cs THEN CHOOSE i \in 1..Len(s) : s[i] \in cs /\ \A j \in 1..(i - 1) : s[j] \notin cs ELSE Len(s) + 1
RECURSIVE ToInt(_, _)
ToInt(s, a) == IF s = <<>> THEN a ELSE ToInt(Tail(s), a * 10 + DVal[Head(s)])
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Head(s) = "0" THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] = "0" THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Canon(s) ==
  LET neg == s[1] = "-"
      u == IF s[1] \in {"+", "-"} THEN Tail(s) ELSE s
      e == Find(u, {"e", "E"})
      m == SubSeq(u, 1, e - 1)
      x == SubSeq(u, e + 1, Len(u))
      xn == IF x = <<>> THEN 0 ELSE IF x[1] = "-" THEN -ToInt(Tail(x), 0) ELSE IF x[1] = "+" THEN ToInt(Tail(x), 0) ELSE ToInt(x, 0)
      d == Find(m, {"."})
      ip == SubSeq(m, 1, d - 1)
      fp == SubSeq(m, d + 1, Len(m))
      all == TrimL(ip \o fp)
      sig == TrimR(all)
  IN IF sig = <<>> THEN [neg |-> FALSE, dig |-> <<>>, exp |-> 0]
     ELSE [neg |-> neg, dig |-> sig, exp |-> xn - Len(fp) + (Len(all) - Len(sig))]

\* The conversion: zeroes and signs in front are held back.
WInit == [start |-> TRUE, neg |-> FALSE, out |-> <<>>, null |-> FALSE]
Lead(w, zero) == (IF w.start /\ w.neg THEN <<"-">> ELSE <<>>) \o (IF w.start /\ zero THEN <<"0">> ELSE <<>>)
WNum(w, c) ==
  IF w.null THEN w
  ELSE IF w.start /\ c = "0" THEN w
  ELSE IF w.start /\ c = "-" THEN [w EXCEPT !.neg = TRUE]
  ELSE IF w.start /\ c = "+" THEN w
  ELSE IF c \in {"n", "N", "i", "I", "s", "S"} THEN [w EXCEPT !.null = TRUE, !.out = <<"null">>]
  ELSE IF IsDigit(c) THEN [w EXCEPT !.out = @ \o Lead(w, FALSE) \o <<c>>, !.start = FALSE]
  ELSE IF c \in {".", "e", "E"} THEN [w EXCEPT !.out = @ \o Lead(w, TRUE) \o <<c>>, !.start = FALSE]
  ELSE [w EXCEPT !.out = Append(@, c)]
RECURSIVE WAll(_, _)
WAll(w, s) == IF s = <<>> THEN w ELSE WAll(WNum(w, Head(s)), Tail(s))
WOut(s) == LET w == WAll(WInit, s) IN IF w.start /\ ~w.null THEN <<"0">> ELSE w.out
=============================================================================
