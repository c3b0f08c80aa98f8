------------------------------ MODULE SvalFmt -------------------------------
(***************************************************************************)
(* Formatting: the Rust-like text a tree stands for (Fmt), as pieces, each *)
(* of one class, and the writer that writes it one call at a time with two *)
(* flags of state (FWrite).  TLC checks that the two agree.                *)
(* A piece is [c |-> class, p |-> text], [c |-> class, s |-> code points], *)
(* or [c |-> "NUMBER", f |-> kind, v |-> number] for floating point        *)
(* numbers, which may be written in any way that reads back.               *)
(***************************************************************************)
EXTENDS SvalSem

\* Text as it is shown: char::escape_debug, one character at a time.
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN <<HexD(n)>> ELSE HexOf(n \div 16) \o <<HexD(n % 16)>>
\* of the characters that the specification uses, those that are not shown as they are
Unshown(c) == c < 32 \/ c \in 127..160 \/ c \in {173, 769, 8203, 8232, 8233, 55295, 57344, 65039, 65279, 65535, 1114111}
DbgCp(c) ==
  CASE c = 0 -> <<92, 48>> [] c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
    [] c \in {34, 39, 92} -> <<92, c>>
    [] Unshown(c) -> <<92, 117, 123>> \o HexOf(c) \o <<125>>
    [] OTHER -> <<c>>
Dbg(s) == Flatten([i \in 1..Len(s) |-> DbgCp(s[i])])
\* Reading it back.
RECURSIVE ReadHex(_, _), UnDbg(_)
DHexVal(c) == IF c \in 48..57 THEN c - 48 ELSE c - 87
ReadHex(b, n) == IF Head(b) = 125 THEN <<n, Tail(b)>> ELSE ReadHex(Tail(b), n * 16 + DHexVal(Head(b)))
UnDbg(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF b[1] # 92 THEN <<b[1]>> \o UnDbg(Tail(b))
  ELSE LET r == SubSeq(b, 3, Len(b)) IN
    CASE b[2] = 48 -> <<0>> \o UnDbg(r) [] b[2] = 116 -> <<9>> \o UnDbg(r) [] b[2] = 110 -> <<10>> \o UnDbg(r) [] b[2] = 114 -> <<13>> \o UnDbg(r)
      [] b[2] = 117 -> LET h == ReadHex(Tail(r), 0) IN <<h[1]>> \o UnDbg(h[2])
      [] OTHER -> <<b[2]>> \o UnDbg(r)

Punct(p) == <<[c |-> "PUNCT", p |-> p]>>
Ws == <<[c |-> "WS", p |-> " "]>>
Atom(p) == <<[c |-> "ATOM", p |-> p]>>
Ident(l) == <<[c |-> "IDENT", s |-> l.s]>>
Quote == <<[c |-> "TEXT", p |-> "\""]>>
Shown(s) == <<[c |-> "TEXT", s |-> Dbg(s)]>>
Plain(v) == <<[c |-> "NUMBER", p |-> v]>>
RawNum(s) == <<[c |-> "NUMBER", s |-> s]>>
Scalar(t) ==
  CASE t.k = "null" -> Atom("()")
    [] t.k = "bool" -> Atom(IF t.v THEN "true" ELSE "false")
    [] t.k \in IntKinds -> Plain(t.v)
    [] t.k \in FloatKinds -> <<[c |-> "NUMBER", f |-> t.k, v |-> t.v]>>
TypeName(m) == IF m.lab.some THEN Ident(m.lab) ELSE <<>>
FTag(m) == IF m.lab.some THEN Ident(m.lab) ELSE Atom("()")

RECURSIVE Fmt(_, _)
\* num: directly inside of something tagged as a number
Fmt(n, num) ==
  LET items(f(_), sep) == Flatten([i \in 1..Len(n.xs) |-> (IF i > 1 THEN sep ELSE <<>>) \o f(n.xs[i])])
      listed(f(_)) == items(f, Punct(",") \o Ws)
      braces(f(_)) == Punct("{") \o (IF n.xs = <<>> THEN <<>> ELSE Ws \o items(f, Punct(",") \o Ws) \o Ws) \o Punct("}")
  IN
  CASE n.k \in ScalarKinds -> Scalar(n)
    [] n.k = "text" -> IF num THEN RawNum(n.s) ELSE Quote \o Shown(n.s) \o Quote
    [] n.k = "binary" -> Punct("[") \o Flatten([i \in 1..Len(n.s) |-> (IF i > 1 THEN Punct(",") \o Ws ELSE <<>>) \o Plain(ToString(n.s[i]))]) \o Punct("]")
    [] n.k = "tag" -> FTag(n.m)
    [] n.k = "seq" -> Punct("[") \o listed(LAMBDA e : Fmt(e.x, FALSE)) \o Punct("]")
    [] n.k = "map" -> braces(LAMBDA e : Fmt(e.key, FALSE) \o Punct(":") \o Ws \o Fmt(e.x, FALSE))
    [] n.k \in {"record", "record_tuple"} -> (IF n.m.lab.some THEN Ident(n.m.lab) \o Ws ELSE <<>>)
         \o braces(LAMBDA e : Ident(e.lab) \o Punct(":") \o Ws \o Fmt(e.x, FALSE))
    [] n.k = "tuple" -> TypeName(n.m) \o Punct("(") \o listed(LAMBDA e : Fmt(e.x, FALSE)) \o Punct(")")
    [] n.k = "tagged" -> LET x == Fmt(n.x, num \/ n.m.tag = NumberTag) IN
         IF n.m.lab.some THEN Ident(n.m.lab) \o Punct("(") \o x \o Punct(")") ELSE x
    [] n.k = "enum" -> IF n.xs = <<>> THEN FTag(n.m) ELSE Fmt(n.xs[1], num)
FmtOf(toks) == Fmt(TreeOf(toks), FALSE)

-----------------------------------------------------------------------------
(* The writer: em: nothing was written yet at this depth; num: texts are   *)
(* numbers here.                                                           *)
FInit == [em |-> TRUE, num |-> FALSE, out |-> <<>>]
FPut(w, s) == [w EXCEPT !.out = @ \o s]
FStep(w, t) ==
  LET Opened(x) == [x EXCEPT !.em = TRUE, !.num = FALSE]
      Full(x) == [x EXCEPT !.em = FALSE]
      Sep == IF w.em THEN <<>> ELSE Punct(",") \o Ws
      BraceSep == IF w.em THEN Ws ELSE Punct(",") \o Ws
  IN
  CASE t.k \in ScalarKinds -> FPut(w, Scalar(t))
    [] t.k = "text_begin" -> IF w.num THEN w ELSE FPut(w, Quote)
    [] t.k = "text_fragment" -> FPut(w, IF w.num THEN RawNum(t.s) ELSE Shown(t.s))
    [] t.k = "text_end" -> IF w.num THEN w ELSE FPut(w, Quote)
    [] t.k \in {"seq_begin", "binary_begin"} -> Opened(FPut(w, Punct("[")))
    [] t.k = "seq_value_begin" -> FPut(w, Sep)
    [] t.k = "binary_fragment" -> IF t.s = <<>> THEN w ELSE
         Full(FPut(w, Flatten([i \in 1..Len(t.s) |-> (IF i > 1 THEN Punct(",") \o Ws ELSE Sep) \o Plain(ToString(t.s[i]))])))
    [] t.k \in {"seq_end", "binary_end"} -> Full(FPut(w, Punct("]")))
    [] t.k = "map_begin" -> Opened(FPut(w, Punct("{")))
    [] t.k = "map_key_begin" -> FPut(w, BraceSep)
    [] t.k = "map_key_end" -> FPut(w, Punct(":") \o Ws)
    [] t.k \in {"seq_value_end", "map_value_end", "record_value_end", "record_tuple_value_end", "tuple_value_end"} -> Full(w)
    [] t.k \in {"map_end", "record_end", "record_tuple_end"} -> Full(FPut(w, (IF w.em THEN <<>> ELSE Ws) \o Punct("}")))
    [] t.k \in {"record_begin", "record_tuple_begin"} -> Opened(FPut(w, (IF t.m.lab.some THEN Ident(t.m.lab) \o Ws ELSE <<>>) \o Punct("{")))
    [] t.k \in {"record_value_begin", "record_tuple_value_begin"} -> FPut(w, BraceSep \o Ident(t.lab) \o Punct(":") \o Ws)
    [] t.k = "tuple_begin" -> Opened(FPut(w, TypeName(t.m) \o Punct("(")))
    [] t.k = "tuple_value_begin" -> FPut(w, Sep)
    [] t.k = "tuple_end" -> Full(FPut(w, Punct(")")))
    [] t.k = "tagged_begin" -> Full(FPut([w EXCEPT !.num = @ \/ t.m.tag = NumberTag], IF t.m.lab.some THEN Ident(t.m.lab) \o Punct("(") ELSE <<>>))
    [] t.k = "tagged_end" -> FPut([w EXCEPT !.num = IF t.m.tag = NumberTag THEN FALSE ELSE @], IF t.m.lab.some THEN Punct(")") ELSE <<>>)
    [] t.k = "enum_begin" -> [w EXCEPT !.em = TRUE]
    [] t.k = "enum_end" -> IF w.em THEN Full(FPut(w, FTag(t.m))) ELSE w
    [] t.k = "tag" -> Full(FPut(w, FTag(t.m)))
    [] OTHER -> w
FWrite(toks) == FoldLeft(FStep, FInit, Flat(toks)).out

\* Pieces without empty ones and with adjacent texts of one class joined.
RECURSIVE FTidy(_)
FTidy(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET h == Head(s) IN
  IF "s" \in DOMAIN h /\ h.s = <<>> THEN FTidy(Tail(s))
  ELSE IF Len(s) > 1 /\ "s" \in DOMAIN h /\ "s" \in DOMAIN s[2] /\ h.c = s[2].c THEN FTidy(<<[c |-> h.c, s |-> h.s \o s[2].s]>> \o SubSeq(s, 3, Len(s)))
  ELSE <<h>> \o FTidy(Tail(s))
\* Brackets are opened and closed in order.
Opening == [x \in {"(", "[", "{"} |-> CASE x = "(" -> ")" [] x = "[" -> "]" [] x = "{" -> "}"]
FBalanced(ps) == FoldLeft(LAMBDA st, p :
   IF st = <<"no">> \/ p.c # "PUNCT" THEN st
   ELSE IF p.p \in DOMAIN Opening THEN Append(st, Opening[p.p])
   ELSE IF p.p \in {")", "]", "}"} THEN (IF st # <<>> /\ st[Len(st)] = p.p THEN SubSeq(st, 1, Len(st) - 1) ELSE <<"no">>)
   ELSE st, <<>>, ps) = <<>>
=============================================================================
