------------------------------ MODULE RespTrace -----------------------------
(* Judges what the real client made of answers (whole, split, cut off or altered): one record    *)
(* per answer and outcome, one state per record.                                                 *)
EXTENDS Response, Json, CSV
CONSTANTS TraceFile, OutFile, Chunk
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in {k \in 1..Len(Trace) : k % Chunk = 1 \/ Chunk = 1}
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1
Spec == Init /\ [][Next]_l

Short(x) == LET s == ToString(x) IN IF Len(s) > 200 THEN SubSeq(s, 1, 200) ELSE s
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the answer to a ping is one pong
PingEnd(b) == IF b = <<>> THEN "bad" ELSE IF b[1] = 4 THEN "eos" ELSE IF Packet(b, 1).k \in {"exc", "free"} THEN Packet(b, 1).k ELSE "bad"
\* r: the record, k: how the answer ends; "" if nothing is wrong.  After a reset received bytes may be lost.
Judge(r, k, d) ==
    IF r.altered /\ k \in {"free", "loose"} /\ r.out \notin {"panic", "hang"} THEN ""
    ELSE IF r.out = "panic" \/ r.out = "hang" THEN r.out \o ": " \o r.what
    ELSE IF r.after # "" /\ ~(k = "eos" /\ d.i <= Len(r.raw)) THEN "afterwards: " \o r.after
    ELSE IF r.out = "exc" /\ ~(k = "exc" /\ (r.op \notin {"fetch", "blocks", "rows", "exec"} \/ r.exc = d.exc)) THEN "an exception the server did not send: " \o Short(r.exc)
    ELSE CASE k \in {"bad", "loose"} -> IF r.out = "ok" THEN "success although the answer is damaged" ELSE IF ~IsPrefix2(r.rows, d.rows) THEN "rows that were not sent: " \o Short(r.rows) ELSE ""
           [] k = "exc" -> IF r.out = "ok" THEN "success in spite of an exception" ELSE IF ~IsPrefix2(r.rows, d.rows) THEN "rows that were not sent: " \o Short(r.rows)
                           ELSE IF r.out = "err" /\ ~r.rst THEN "the exception is lost: " \o r.what
                           ELSE ""
           [] k = "eos" -> IF r.out = "ok" THEN (IF r.op \in {"fetch", "blocks", "rows"} /\ r.rows # d.rows THEN "rows " \o Short(r.rows) \o " instead of " \o Short(d.rows) ELSE "")
                           ELSE IF r.rst THEN "" ELSE "an error although the answer is complete: " \o r.what
Verdict(r) ==
    LET none == [end |-> "", rows |-> <<>>, exc |-> <<>>, i |-> 2]
    IN CASE r.op = "ping" -> Judge(r, PingEnd(r.raw), none)
         \* after the header of the table nothing more comes, so an insert cannot succeed
         [] r.op = "head" -> Judge(r, IF r.altered /\ r.out = "exc" THEN "free" ELSE "bad", none)
         [] r.op = "hello" -> Judge(r, IF r.altered THEN "free" ELSE IF r.full THEN "eos" ELSE "bad", [none EXCEPT !.i = Len(r.raw) + 1])
         [] OTHER -> LET d == Decode(r.raw) IN Judge(r, IF r.op = "tail" /\ r.altered /\ d.end \in {"eos", "loose"} THEN "free" ELSE d.end, d)
Emit == LET v == Verdict(Trace[l]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, why |-> v])>>, OutFile)
=============================================================================
