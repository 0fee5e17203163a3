------------------------------ MODULE PoolWeak ------------------------------
(* Schedules that matter.  Each step of PoolImpl is there for a reason: without it some            *)
(* interleaving goes wrong.  This module explores PoolImpl with one step left out (or torn in two, *)
(* or moved), and whenever that breaks one of the promises it emits the interleaving: the          *)
(* situation, and which thread takes how many steps when.  The same schedules are then played on   *)
(* the real pool, which has to keep every promise.                                                 *)
EXTENDS PoolImpl
CONSTANTS ActKinds, \* what the threads may do
          Full      \* TRUE: only situations in which all capacity is used
VARIABLES sit, hist, polled
wvars == <<vars, sit, hist, polled>>
ViewW == <<vars, sit>>
\* operations on shared memory that the step of thread t makes in the code (where a thread can be paused)
Points(t) ==
  CASE pc[t] \in {"start", "close", "err", "done"} -> 0
    [] pc[t] = "pollnew" -> (IF est[loc[t].nw] = "wait" THEN 1 ELSE 0) + (IF loc[t].nw > sit.conns /\ loc[t].nw \notin polled THEN 1 ELSE 0)
    [] pc[t] = "register" -> IF loc[t].reg THEN 0 ELSE 1
    [] OTHER -> 1
\* (a connection made on the way takes its turn among the hosts when it is polled for the first time)
More(n, t) == IF n = 0 THEN hist
              ELSE IF hist # <<>> /\ hist[Len(hist)][1] = t THEN [hist EXCEPT ![Len(hist)][2] = @ + n]
              ELSE Append(hist, <<t, n>>)
Note(t) == /\ polled' = (IF pc[t] = "pollnew" THEN polled \cup {loc[t].nw} ELSE polled)
           /\ hist' = More(Points(t), t)
WInit == /\ Init /\ hist = <<>> /\ polled = {}
         /\ \A t \in Threads : act[t].k \in ActKinds
         /\ (Full => total = max /\ \E t \in Threads : act[t].k = "drop")
         /\ \A t, u \in Threads : t < u => Num(act[t]) <= Num(act[u])
         /\ sit = [min |-> min, max |-> max, l |-> Cardinality(DOMAIN lent), i |-> Len(idle), st |-> IF new = 0 THEN "none" ELSE est[new],
                   w |-> Cardinality(pend), wk |-> woken, conns |-> nc, act |-> [t \in Threads |-> <<act[t].k, act[t].x>>]]
Broken == ~Bound \/ ~Exclusive \/ ~IdleBound \/ ~NoLost \/ ~Count
WNext == ~Broken /\ UNCHANGED sit /\ \E t \in Threads : Step(t) /\ Note(t)
WSpec == WInit /\ [][WNext]_wvars
WEmit == IF Broken THEN CSVWrite("%1$s", <<ToJson([min |-> sit.min, max |-> sit.max, l |-> sit.l, i |-> sit.i, st |-> sit.st, w |-> sit.w, wk |-> sit.wk,
                                        act |-> sit.act, weak |-> weak, sched |-> hist])>>, OutFile) ELSE TRUE
\* (without a missing step nothing breaks: that is what PoolImpl is checked for)
Sound == weak = "none" => ~Broken
=============================================================================
