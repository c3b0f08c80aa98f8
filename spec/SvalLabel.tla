----------------------------- MODULE SvalLabel ------------------------------
(***************************************************************************)
(* Labels and the storage they stand for.  A program keeps labels in slots *)
(* and text in sources; a label is made from static text, borrows a source *)
(* or owns its text.  A source is only overwritten or freed while no label *)
(* borrows it (the borrow checker sees to that), so every label must show  *)
(* its text at all times, whatever happens to the label or source it came  *)
(* from.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Sources, Texts, Tags, Alloc
VARIABLES slots, sources
lvars == <<slots, sources>>

Empty == [some |-> FALSE]
Label(s, st, tag, src) == [some |-> TRUE, s |-> s, st |-> st, tag |-> tag, src |-> src]
Freed == [some |-> FALSE]
LInit == slots = [i \in Slots |-> Empty] /\ sources = [i \in Sources |-> Freed]
Borrowed(i) == \E j \in Slots : slots[j].some /\ slots[j].src = i

\* What an operation makes of the slots and sources.
Can(op) ==
  CASE op.o = "static" -> TRUE
    \* without an allocator only static text can be owned, and trying says so
    [] op.o = "owned" -> Alloc
    [] op.o = "to_owned" -> Alloc /\ slots[op.s].some
    [] op.o = "try_to_owned" -> slots[op.s].some /\ (Alloc \/ slots[op.s].st)
    [] op.o = "try_to_owned fails" -> ~Alloc /\ slots[op.s].some /\ ~slots[op.s].st
    [] op.o = "computed" -> sources[op.src].some
    [] op.o \in {"with_tag", "drop"} -> slots[op.d].some
    [] op.o = "clone" -> slots[op.s].some
    [] op.o = "move" -> slots[op.s].some /\ op.s # op.d
    [] op.o = "fill" -> ~Borrowed(op.src)
    [] op.o = "free" -> sources[op.src].some /\ ~Borrowed(op.src)
SlotsAfter(op) ==
  CASE op.o = "static" -> [slots EXCEPT ![op.d] = Label(op.t, TRUE, "", 0)]
    [] op.o = "owned" -> [slots EXCEPT ![op.d] = Label(op.t, FALSE, "", 0)]
    [] op.o = "computed" -> [slots EXCEPT ![op.d] = Label(sources[op.src].s, FALSE, "", op.src)]
    [] op.o = "with_tag" -> [slots EXCEPT ![op.d] = [@ EXCEPT !.tag = op.t]]
    [] op.o = "clone" -> [slots EXCEPT ![op.d] = slots[op.s]]
    [] op.o \in {"to_owned", "try_to_owned"} -> [slots EXCEPT ![op.d] = [slots[op.s] EXCEPT !.src = 0]]
    [] op.o = "move" -> [slots EXCEPT ![op.d] = slots[op.s], ![op.s] = Empty]
    [] op.o = "drop" -> [slots EXCEPT ![op.d] = Empty]
    [] OTHER -> slots
SourcesAfter(op) ==
  CASE op.o = "fill" -> [sources EXCEPT ![op.src] = [some |-> TRUE, s |-> op.t]]
    [] op.o = "free" -> [sources EXCEPT ![op.src] = Freed]
    [] OTHER -> sources
Ops == [o : {"static", "owned"}, d : Slots, t : Texts] \cup [o : {"computed"}, d : Slots, src : Sources]
  \cup [o : {"with_tag"}, d : Slots, t : Tags] \cup [o : {"drop"}, d : Slots]
  \cup [o : {"clone", "to_owned", "try_to_owned", "try_to_owned fails", "move"}, s : Slots, d : Slots]
  \cup [o : {"fill"}, src : Sources, t : Texts] \cup [o : {"free"}, src : Sources]

\* What can be seen of a label.
Seen(l) == IF l.some THEN [some |-> TRUE, s |-> l.s, st |-> l.st, tag |-> l.tag] ELSE [some |-> FALSE]
Equal(a, b) == a.s = b.s

\* Every label that borrows shows what is there.
NoneDangle == \A j \in Slots : (slots[j].some /\ slots[j].src # 0) =>
  sources[slots[j].src].some /\ sources[slots[j].src].s = slots[j].s
OnlyStaticClaim == \A j \in Slots : (slots[j].some /\ slots[j].st) => slots[j].src = 0
=============================================================================
