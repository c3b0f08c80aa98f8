------------------------------ MODULE Decimals ------------------------------
(* Powers of two and their neighbours as decimal text, and integer ranges. *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Dbl(_, _, _)
Dbl(d, carry, acc) == IF d = <<>> THEN (IF carry = 0 THEN acc ELSE <<carry>> \o acc)
  ELSE LET x == d[Len(d)] * 2 + carry IN Dbl(SubSeq(d, 1, Len(d) - 1), x \div 10, <<x % 10>> \o acc)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE Dbl(Pow2(k - 1), 0, <<>>)
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1] ELSE Append(Inc(SubSeq(d, 1, Len(d) - 1)), 0)
RECURSIVE Dec(_)
Dec(d) == IF d[Len(d)] > 0 THEN [d EXCEPT ![Len(d)] = @ - 1] ELSE Append(Dec(SubSeq(d, 1, Len(d) - 1)), 9)
RECURSIVE StripZ(_)
StripZ(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZ(Tail(d)) ELSE d
RECURSIVE DText(_)
DText(d) == IF d = <<>> THEN "" ELSE ToString(d[1]) \o DText(Tail(d))
Near(k, delta) == IF delta = 0 THEN Pow2(k) ELSE IF delta = 1 THEN Inc(Pow2(k)) ELSE StripZ(Dec(Pow2(k)))
Width == [u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, u128 |-> 128, i8 |-> 7, i16 |-> 15, i32 |-> 31, i64 |-> 63, i128 |-> 127]
Signed == {"i8", "i16", "i32", "i64", "i128"}
\* |x| = 2^k + delta is in range
InRange(kind, neg, k, delta) == LET w == Width[kind] IN
  IF neg THEN kind \in Signed /\ (k < w \/ (k = w /\ delta <= 0)) ELSE k < w \/ (k = w /\ delta < 0)
Ints == {[kind |-> kd, k |-> k, delta |-> d, neg |-> ng] : kd \in DOMAIN Width, k \in 0..128, d \in {-1, 0, 1}, ng \in BOOLEAN}
=============================================================================
