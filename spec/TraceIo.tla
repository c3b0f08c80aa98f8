------------------------------ MODULE TraceIo -------------------------------
(* Are the recorded exchanges behaviours of SvalIo?                        *)
EXTENDS SvalIo, Json, CSV, IOUtils
VARIABLES i
Traces == ndJsonDeserialize(IOEnv.SVH_TRACES)
Ok(t) == IoAccepts(t.len, t.evs, t.ok)
Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
        /\ IF Ok(Traces[i + 1]) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Traces[i + 1])>>, IOEnv.SVH_BAD)
Spec == Init /\ [][Next]_i
AllSeen == TLCGet("stats").distinct = Len(Traces) + 1
=============================================================================
