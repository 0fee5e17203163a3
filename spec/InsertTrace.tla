----------------------------- MODULE InsertTrace ----------------------------
(* Follows the events of real inserts through Insert!Apply.                                      *)
EXTENDS Insert, Json, CSV
CONSTANTS TraceFile, OutFile, Chunk
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in {k \in 1..Len(Trace) : k % Chunk = 1 \/ Chunk = 1}
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1
Spec == Init /\ [][Next]_l
\* ------------------------------------------------------------------ the statement's columns, as the server reads them
\* "INSERT INTO t (" and ") VALUES"
Head_ == <<73, 78, 83, 69, 82, 84, 32, 73, 78, 84, 79, 32, 116, 32, 40>>
Last_ == <<41, 32, 86, 65, 76, 85, 69, 83>>
Space(c) == c \in {32, 9, 10}
Esc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 48 -> 0 [] c = 97 -> 7 [] c = 118 -> 11 [] c = 101 -> 27 [] OTHER -> c
RECURSIVE Quoted(_, _, _), Names(_, _, _)
Quoted(b, i, acc) == IF i > Len(b) THEN [ok |-> FALSE, v |-> <<>>, i |-> 0]
                     ELSE IF b[i] = 96 THEN (IF i < Len(b) /\ b[i + 1] = 96 THEN Quoted(b, i + 2, Append(acc, 96)) ELSE [ok |-> TRUE, v |-> acc, i |-> i + 1])
                     ELSE IF b[i] = 92 THEN (IF i = Len(b) THEN [ok |-> FALSE, v |-> <<>>, i |-> 0] ELSE Quoted(b, i + 2, Append(acc, Esc(b[i + 1]))))
                     ELSE Quoted(b, i + 1, Append(acc, b[i]))
Bare(b, i) == LET es == {j \in i..Len(b) + 1 : j > Len(b) \/ ~(b[j] \in 48..57 \/ b[j] \in 65..90 \/ b[j] \in 97..122 \/ b[j] = 95)}
                  e == CHOOSE j \in es : \A k \in es : j <= k IN [ok |-> e > i, v |-> SubSeq(b, i, e - 1), i |-> e]
Names(b, i, acc) == \* b: what is inside the parentheses
    IF i > Len(b) THEN acc
    ELSE IF Space(b[i]) THEN Names(b, i + 1, acc)
    ELSE LET q == IF b[i] = 96 THEN Quoted(b, i + 1, <<>>) ELSE Bare(b, i)
         IN IF ~q.ok THEN <<>> ELSE IF q.i > Len(b) THEN Append(acc, q.v) ELSE IF b[q.i] = 44 THEN Names(b, q.i + 1, Append(acc, q.v)) ELSE <<>>
SqlOk(s, cols) == /\ Len(s) >= Len(Head_) + Len(Last_) /\ SubSeq(s, 1, Len(Head_)) = Head_ /\ SubSeq(s, Len(s) - Len(Last_) + 1, Len(s)) = Last_
                  /\ Names(SubSeq(s, Len(Head_) + 1, Len(s) - Len(Last_)), 1, <<>>) = cols
Verdict(r) ==
    LET end == FoldLeft(LAMBDA st, e : IF st.bad # "" THEN st
                                       ELSE IF e.k = "query" /\ ~SqlOk(e.sql, r.cols) THEN Blame(st, "the statement does not name the block's columns")
                                       ELSE IF e.k = "bad" THEN Blame(st, "the server cannot read " \o e.s)
                                       ELSE IF e.k = "result" /\ e.s \in {"panic", "hang"} THEN Blame(st, e.s \o " in phase " \o st.phase)
                                       ELSE Apply(st, e), Start(r.n), r.evs)
    IN IF end.bad # "" THEN end.bad ELSE IF end.phase # "done" THEN "no result" ELSE IF r.after # "" THEN "afterwards: " \o r.after
       ELSE IF r.want # r.evs[Len(r.evs)].s /\ ~(r.evs[Len(r.evs)].k = "result" /\ r.evs[Len(r.evs)].may) THEN "the result is " \o r.evs[Len(r.evs)].s \o " instead of " \o r.want ELSE ""
Emit == LET v == Verdict(Trace[l]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, why |-> v])>>, OutFile)
=============================================================================
