------------------------------- MODULE GenStd -------------------------------
(* Values of the types sval knows, built node by node in prefix order, for *)
(* S01.                                                                    *)
EXTENDS SvalStd, SvalCast, SvalGrammar, Json, CSV, IOUtils
CONSTANTS MaxNodes, Types, Lens
VARIABLES nodes, need, rng, done
vars == <<nodes, need, rng, done>>
Out == IOEnv.SVH_OUT
Seeds == {((i % 65537) * 7919 + 13) % 65537 : i \in atoi(IOEnv.SVH_SEED_LO)..atoi(IOEnv.SVH_SEED_HI)}

Init == nodes = <<>> /\ need = 1 /\ rng \in Seeds /\ done = FALSE
LenOk(ty, n) ==
  IF ty \in StdLeaves \cup StdWraps THEN n = 0
  ELSE /\ (ty = "tuple" => n \in 1..16) /\ (ty = "array" => n <= 4)
       /\ (ty = "hash" => (n <= 1 \/ nodes = <<>>)) /\ (ty = "btree" => n <= 6)
Add == ~done /\ need > 0 /\ \E ty \in Types, n \in Lens \cup {0} :
  /\ LenOk(ty, n) /\ Len(nodes) + need + Kids(ty, n) <= MaxNodes
  /\ nodes' = Append(nodes, [ty |-> ty, n |-> n, r |-> rng]) /\ need' = need - 1 + Kids(ty, n)
  /\ rng' = Stir(rng) /\ UNCHANGED done

\* The tree a prefix sequence describes: <<tree, rest>>.
RECURSIVE Grow(_), GrowN(_, _, _)
Grow(s) == LET h == Head(s) k == GrowN(Kids(h.ty, h.n), Tail(s), <<>>) IN <<[ty |-> h.ty, n |-> h.n, r |-> h.r, kids |-> k[1]], k[2]>>
GrowN(n, s, acc) == IF n = 0 THEN <<acc, s>> ELSE LET g == Grow(s) IN GrowN(n - 1, g[2], Append(acc, g[1]))
Tree == Grow(nodes)[1]
\* The content each node stands for, for the program that builds the value.
RECURSIVE Content(_)
Content(x) ==
  LET r == x.r IN
  [ty |-> x.ty, n |-> x.n, kids |-> [i \in 1..Len(x.kids) |-> Content(x.kids[i])],
   c |-> CASE x.ty = "bool" -> (r % 2 = 0)
           [] x.ty = "int" -> At(r, StdInts) [] x.ty = "float" -> At(r, StdFloats)
           [] x.ty = "char" -> At(r, StdChars)
           [] x.ty \in {"str", "string", "boxstr"} -> ATextOf(r)
           [] x.ty \in {"display", "display2", "debug", "shown"} -> PiecesOf(r)
           [] x.ty = "number" -> At(r, StdNumbers) [] x.ty = "json" -> At(r, StdJson)
           [] x.ty \in {"binarray", "array_u8"} -> At(r, StdBytes)
           [] x.ty \in {"binslice", "vec_u8", "slice_u8"} -> BytesOf(r)
           [] x.ty = "btree" -> BKeys(x.n, r)
           [] x.ty = "hash" -> [i \in 1..x.n |-> HKey(i, r)]
           [] OTHER -> <<>>]
Whole == ~done /\ need = 0
Finish == Whole /\ CSVWrite("%1$s", <<ToJson([value |-> Content(Tree), toks |-> Std(Tree),
             ask |-> Answers(TreeOf(Std(Tree))), tag |-> OuterTag(Std(Tree)),
             entries |-> IF Tree.ty = "hash" THEN [i \in 1..Tree.n |-> Entries(<<Text(HKey(i, Tree.r), TRUE)>>, <<Std(Tree.kids[i])>>)] ELSE <<>>])>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<nodes, need, rng>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

\* Every value is one complete, self-consistent sequence.
IsValue == Whole => Accepts(Std(Tree))
\* It holds exactly the data of its parts, in order.
RECURSIVE Leaves(_)
Leaves(x) == IF x.kids = <<>> THEN (IF x.ty \in StdLeaves THEN Data(Std(x)) ELSE <<>>)
  ELSE Flatten([i \in 1..Len(x.kids) |->
    (IF x.ty = "btree" THEN << <<"t", DecCps(ToString(BKeys(x.n, x.r)[i]))>> >> ELSE IF x.ty = "hash" THEN << <<"t", HKey(i, x.r)>> >> ELSE <<>>) \o Leaves(x.kids[i])])
HoldsData == Whole => Data(Std(Tree)) = Leaves(Tree)
=============================================================================
