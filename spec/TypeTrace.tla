------------------------------ MODULE TypeTrace -----------------------------
(* Judges what the real client made of type names: one record per name, one state per record.   *)
EXTENDS TypeName, TLC, Json, CSV
CONSTANTS TraceFile, OutFile, Chunk
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in {k \in 1..Len(Trace) : k % Chunk = 1 \/ Chunk = 1}
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1
Spec == Init /\ [][Next]_l
\* r.s the name, r.out "ok"|"err"|"panic"|"dead", r.t the type, r.p its printed name, r.z the server's time zone, r.deep: too long to parse here
Verdict(r) ==
    IF r.out \in {"panic", "dead"} THEN r.what
    ELSE IF r.deep THEN ""
    ELSE IF r.out = "err" THEN IF Canonical(r.s) THEN "refused: " \o r.what ELSE ""
    ELSE LET x == Parse(r.s)
             p == Parse(r.p)
         IN IF ~x.ok THEN "accepted although no type is called so, as " \o ToString(r.t)
            ELSE IF ~Match(x.t, r.t, r.z) THEN "read as " \o ToString(r.t)
            ELSE IF ~p.ok THEN "its printed name is no type name: " \o r.what
            ELSE IF ~Match(x.t, p.t, r.z) THEN "its printed name is another type's: " \o r.what
            ELSE ""
Emit == LET v == Verdict(Trace[l]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, why |-> v])>>, OutFile)
=============================================================================
