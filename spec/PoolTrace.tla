------------------------------ MODULE PoolTrace ------------------------------
(* Judges traces recorded from the real pool by PoolContract.  Every event of  *)
(* every trace is consumed; what it violates is written to OutFile.            *)
EXTENDS PoolContract, TLC, Json, CSV
CONSTANTS TraceFile, OutFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, M, blame
vars == <<t, i, M, blame>>
ToSet(s) == {s[x] : x \in DOMAIN s}
Event(r) == [k |-> r[1], f |-> r[2], res |-> r[3], h |-> r[4], c |-> r[5], open |-> ToSet(r[6]), att |-> ToSet(r[7]),
             ready |-> ToSet(r[8]), pend |-> ToSet(r[9]), woken |-> ToSet(r[10]), ongoing |-> r[11], n |-> r[12], peak |-> r[13]]
Init == t \in 1..Len(Traces) /\ i = 0 /\ M = M0(Traces[t].min, Traces[t].max) /\ blame = {}
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Event(Traces[t].ev[i + 1]) IN
           /\ M' = Upd(M, e)
           /\ blame' = Blame(M, e) \cup (IF e.res = "panic" THEN {"P03"} ELSE {})
        /\ i' = i + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Emit == IF blame = {} THEN TRUE
        ELSE CSVWrite("%1$s", <<ToJson([id |-> Traces[t].id, step |-> i, blame |-> blame, ev |-> Traces[t].ev[i]])>>, OutFile)
=============================================================================
