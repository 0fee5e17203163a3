----------------------------- MODULE WireTrace -----------------------------
(* Judges what the real client sent for blocks it was given (recorded by the scripted server)   *)
(* by the format (Wire) and the meaning of conversions (Cast).  One state per record.           *)
EXTENDS Cast, Json, CSV
CONSTANTS TraceFile, OutFile, Chunk
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in {k \in 1..Len(Trace) : k % Chunk = 1 \/ Chunk = 1}
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1
Spec == Init /\ [][Next]_l

Verdict(r) ==
    IF r.out \in {"panic", "bad"} THEN r.what
    ELSE IF r.out = "err" THEN IF r.t = r.d /\ (~Unoffered(r.d) \/ r.again) THEN "refused: " \o r.what ELSE ""
    ELSE IF r.n = 0 THEN ""
    ELSE IF SansTz(r.nt) # SansTz(r.d) THEN "sent as " \o r.what \o ", asked for " \o r.dname
    ELSE LET x == Dec(r.d, r.n, r.b)
         IN IF ~x.ok THEN "the bytes sent are not a column of this type"
            ELSE LET bad == {i \in 1..r.n : ~Means(r.t, r.d, r.v[i], x.v[i], r.named)}
                 IN IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : TRUE IN "row " \o ToString(i) \o ": given " \o ToString(r.v[i]) \o ", sent " \o ToString(x.v[i])
Emit == LET v == Verdict(Trace[l]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, why |-> v])>>, OutFile)
=============================================================================
