----------------------------- MODULE SvalEscape -----------------------------
(***************************************************************************)
(* Text as the content of a JSON string (code points, RFC 8259): what must *)
(* be escaped, one way of escaping it, and reading it back.                *)
(***************************************************************************)
EXTENDS SvalTokens

MustEscape(c) == c < 32 \/ c = 34 \/ c = 92
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
EscCp(c) ==
  CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>>
    [] c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>>
    [] c < 32 -> <<92, 117, 48, 48, Hex(c \div 16), Hex(c % 16)>>
    [] OTHER -> <<c>>
Escaped(s) == Flatten([i \in 1..Len(s) |-> EscCp(s[i])])

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Bad == <<-1>>
RECURSIVE Decode(_)
Decode(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF b[1] # 92 THEN IF MustEscape(b[1]) THEN Bad ELSE <<b[1]>> \o Decode(Tail(b))
  ELSE IF Len(b) = 1 THEN Bad
  ELSE LET r == SubSeq(b, 3, Len(b)) IN
    CASE b[2] \in {34, 92, 47} -> <<b[2]>> \o Decode(r)
      [] b[2] = 98 -> <<8>> \o Decode(r) [] b[2] = 116 -> <<9>> \o Decode(r) [] b[2] = 110 -> <<10>> \o Decode(r)
      [] b[2] = 102 -> <<12>> \o Decode(r) [] b[2] = 114 -> <<13>> \o Decode(r)
      [] b[2] = 117 ->
           IF Len(b) < 6 \/ \E i \in 3..6 : HexVal(b[i]) = -1 THEN Bad
           ELSE <<HexVal(b[3]) * 4096 + HexVal(b[4]) * 256 + HexVal(b[5]) * 16 + HexVal(b[6])>> \o Decode(SubSeq(b, 7, Len(b)))
      [] OTHER -> Bad
=============================================================================
