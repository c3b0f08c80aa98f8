------------------------------ MODULE SvalCast ------------------------------
(***************************************************************************)
(* Asking a value for a scalar.  The verdict on one request is "some" (the *)
(* datum must be given), "none" (nothing may be given), or "either" (the   *)
(* datum, or nothing).  v is the datum.                                    *)
(***************************************************************************)
EXTENDS SvalSem

\* What is left of a value when what is wrapped around it is taken away.
RECURSIVE Core(_)
Core(x) ==
  CASE x.k = "tagged" -> Core(x.x)
    [] x.k = "enum" -> IF x.xs = <<>> THEN [k |-> "nothing"] ELSE Core(x.xs[1])
    [] x.k = "tag" -> IF x.m.tag = NoneTag \/ ~x.m.lab.some THEN Null
                      ELSE [k |-> "text", n |-> -1, s |-> x.m.lab.s, fs |-> <<TextFrag(x.m.lab.s, x.m.lab.st)>>]
    [] OTHER -> x

Lo == [i8 |-> "128", i16 |-> "32768", i32 |-> "2147483648", i64 |-> "9223372036854775808", i128 |-> "170141183460469231731687303715884105728",
       u8 |-> "0", u16 |-> "0", u32 |-> "0", u64 |-> "0", u128 |-> "0"]
Hi == [i8 |-> "127", i16 |-> "32767", i32 |-> "2147483647", i64 |-> "9223372036854775807", i128 |-> "170141183460469231731687303715884105727",
       u8 |-> "255", u16 |-> "65535", u32 |-> "4294967295", u64 |-> "18446744073709551615", u128 |-> "340282366920938463463374607431768211455"]
FitsKind(kind, v) == Fits(v, Lo[kind], Hi[kind])
SignedKinds == {"i8", "i16", "i32", "i64", "i128"}
SameSign(a, b) == (a \in SignedKinds) = (b \in SignedKinds)

None == [a |-> "none"]
Some(v) == [a |-> "some", v |-> v]
Either(v) == [a |-> "either", v |-> v]
NotLent(v) == [a |-> "none", v |-> v]
AskInt(kind, c) ==
  IF c.k \notin IntKinds \/ ~FitsKind(kind, c.v) THEN None
  ELSE IF SameSign(kind, c.k) THEN Some(c.v) ELSE Either(c.v)
\* Bytes and characters can be given if they are there in one long-lived piece.
AskBytes(kind, c) ==
  IF c.k # kind THEN None
  ELSE IF Len(c.fs) = 1 THEN (IF c.fs[1].b THEN Some(c.s) ELSE NotLent(c.s))
  ELSE IF \E i \in 1..Len(c.fs) : ~c.fs[i].b THEN NotLent(c.s) ELSE Either(c.s)
Answers(x) == LET c == Core(x) IN
  [kind \in IntKinds |-> AskInt(kind, c)]
  @@ [bool |-> IF c.k = "bool" THEN Some(c.v) ELSE None,
      f32 |-> IF c.k = "f32" THEN Some(c.v) ELSE IF c.k = "f64" THEN Either(c.v) ELSE None,
      f64 |-> IF c.k = "f64" THEN Some(c.v) ELSE IF c.k = "f32" THEN Some(WidenF32[c.v]) ELSE None,
      text |-> AskBytes("text", c), binary |-> AskBytes("binary", c)]

\* The tag a value says it has is that of the outermost thing it streams.
OuterTag(toks) == LET t == NoHints(Flat(toks))[1] IN
  CASE t.k \in {"tag", "tagged_begin", "enum_begin", "record_begin", "tuple_begin", "record_tuple_begin"} -> t.m.tag
    [] t.k \in NumKinds -> NumberTag
    [] OTHER -> NoTag
=============================================================================
