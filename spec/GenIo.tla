------------------------------- MODULE GenIo --------------------------------
(* Writers for J04: take everything for a while, then follow a script.     *)
EXTENDS SvalIo, SvalTokens, Json, CSV, IOUtils
CONSTANTS MaxSkip, MaxScript
VARIABLES doc, skip, script, done
vars == <<doc, skip, script, done>>
Out == IOEnv.SVH_OUT
Part == atoi(IOEnv.SVH_PART)
Parts == atoi(IOEnv.SVH_PARTS)
L(s) == Lab(s, TRUE, FALSE)
Txt(s) == <<TextBegin(-1), TextFrag(s, TRUE), TextEnd>>
M(l) == Meta(NoTag, L(l), NoIdx)
Docs == <<
  <<Num("u64", "18446744073709551615")>>,
  Txt(<<97, 34, 98, 10, 233>>),
  <<SeqBegin(-1), SeqValueBegin, Null, SeqValueEnd, SeqValueBegin, Bool(TRUE), SeqValueEnd, SeqValueBegin, Num("f64", "1.5"), SeqValueEnd, SeqEnd>>,
  <<RecordBegin(M(<<82>>), 2), RecordValueBegin(NoTag, L(<<97>>))>> \o Txt(<<92>>) \o <<RecordValueEnd(NoTag, L(<<97>>)),
    RecordValueBegin(NoTag, L(<<98, 34>>)), MapBegin(1), MapKeyBegin, Num("i64", "-1"), MapKeyEnd, MapValueBegin, Null, MapValueEnd, MapEnd,
    RecordValueEnd(NoTag, L(<<98, 34>>)), RecordEnd(M(<<82>>))>>,
  <<EnumBegin(M(<<69>>)), TaggedBegin(M(<<86>>)), BinBegin(2), BinFrag(<<1, 255>>, TRUE), BinEnd, TaggedEnd(M(<<86>>)), EnumEnd(M(<<69>>))>>,
  <<TaggedBegin(Meta(NumberTag, NoLab, NoIdx)), TextBegin(-1), TextFrag(<<45, 48, 48>>, TRUE), TextFrag(<<49, 46, 53>>, FALSE), TextEnd, TaggedEnd(Meta(NumberTag, NoLab, NoIdx))>>,
  <<TupleBegin(NoMeta, -1), TupleEnd(NoMeta)>>>>
Responses == {"one", "two", "half", "all", "intr", "zero", "err"}
Init == done = FALSE /\ skip \in 0..MaxSkip /\ skip % Parts = Part /\ doc \in 1..Len(Docs) /\ script = <<>>
Add == ~done /\ Len(script) < MaxScript /\ \E r \in Responses : script' = Append(script, r) /\ UNCHANGED <<doc, skip, done>>
Finish == ~done /\ CSVWrite("%1$s", <<ToJson([toks |-> Docs[doc], skip |-> skip, script |-> script])>>, Out)
          /\ done' = TRUE /\ UNCHANGED <<doc, skip, script>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
