-------------------------------- MODULE Insert ------------------------------
(* One insert: the client asks, the server states the table's columns, the client sends a piece  *)
(* of the rows and an end marker, the server confirms; and so on until all rows are confirmed.   *)
(* Apply is the transition relation: the state after an event, or a state whose bad field says   *)
(* why the client must not do that.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Max_
\* events: [k |-> kind, ...]
\*   query: the statement    head: what the server states ("ok", "retyped", "fewer", "more", "exc", "close", "reset", "eos")
\*   data: rows a+1..a+b of the block, t: every column has the table's type and name order
\*   end: the end marker     ans: how the server answers ("eos", "exc", "close", "reset", "cut")    result: "ok", "err", "exc"
Start(n) == [phase |-> "idle", n |-> n, sent |-> 0, confirmed |-> 0, exc |-> FALSE, bad |-> ""]
Blame(st, why) == [st EXCEPT !.bad = why]
Apply(st, e) ==
    IF st.bad # "" THEN st
    ELSE CASE e.k = "query" -> IF st.phase = "idle" /\ (st.sent < st.n \/ (st.n = 0 /\ st.confirmed = 0)) THEN [st EXCEPT !.phase = "asked"] ELSE Blame(st, "a statement in phase " \o st.phase)
           [] e.k = "head" -> CASE e.s \in {"ok", "retyped"} -> [st EXCEPT !.phase = "ready"]
                                [] e.s \in {"fewer", "more"} -> [st EXCEPT !.phase = "refused"]
                                [] e.s = "exc" -> [st EXCEPT !.phase = "failed", !.exc = TRUE]
                                [] OTHER -> [st EXCEPT !.phase = "failed"]
           [] e.k = "data" -> IF st.phase \notin {"ready", "early"} THEN Blame(st, "rows in phase " \o st.phase)
                              ELSE IF ~e.t THEN Blame(st, "rows of other types than the table's")
                              ELSE IF e.b = 0 THEN Blame(st, "rows that are not the block's next ones")
                              ELSE IF e.b > Max_ THEN Blame(st, "a piece of " \o ToString(e.b) \o " rows")
                              ELSE IF e.a # st.sent \/ e.a + e.b > st.n THEN Blame(st, "rows from " \o ToString(e.a + 1) \o " to " \o ToString(e.a + e.b) \o " after " \o ToString(st.sent))
                              ELSE IF st.phase = "early" THEN [st EXCEPT !.sent = @ + e.b] ELSE [st EXCEPT !.phase = "sending", !.sent = @ + e.b]
           [] e.k = "end" -> IF st.phase = "early" THEN st
                             ELSE IF st.phase = "sending" \/ (st.phase = "ready" /\ st.n = 0) THEN [st EXCEPT !.phase = "ended"] ELSE Blame(st, "an end marker in phase " \o st.phase)
           [] e.k = "ans" -> CASE e.s = "eos" -> [st EXCEPT !.phase = IF st.sent = st.n THEN "complete" ELSE "idle", !.confirmed = st.sent]
                               [] e.s = "early" -> [st EXCEPT !.phase = "early", !.exc = TRUE]
                               [] e.s = "exc" -> [st EXCEPT !.phase = "failed", !.exc = TRUE]
                               [] OTHER -> [st EXCEPT !.phase = "failed"]
           [] e.k = "result" -> CASE e.s = "ok" -> IF st.phase = "complete" THEN [st EXCEPT !.phase = "done"] ELSE Blame(st, "success in phase " \o st.phase)
                                  [] e.s = "exc" -> IF st.exc THEN [st EXCEPT !.phase = "done"] ELSE Blame(st, "an exception the server did not send")
                                  [] OTHER -> IF st.exc /\ e.must THEN Blame(st, "the server's exception is lost")
                                              ELSE IF st.phase \in {"failed", "refused", "early"} \/ e.may THEN [st EXCEPT !.phase = "done"] ELSE Blame(st, "an error in phase " \o st.phase)
=============================================================================
