----------------------------- MODULE FrameTrace -----------------------------
(* Judges the frames the real client sent for a block against what it sent without compression. *)
EXTENDS Lz4, Json, CSV
CONSTANTS TraceFile, OutFile, Chunk
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in {k \in 1..Len(Trace) : k % Chunk = 1 \/ Chunk = 1}
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1
Spec == Init /\ [][Next]_l
Verdict(r) == IF r.what # "" THEN r.what
              ELSE IF ~r.sums THEN "a checksum is wrong"
              ELSE LET c == Contents(r.f) IN IF ~c.ok THEN "not a sequence of frames" ELSE IF c.v # r.plain THEN "the frames hold something else than the block" ELSE ""
Emit == LET v == Verdict(Trace[l]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, why |-> v])>>, OutFile)
=============================================================================
