------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* The pool's algorithm with one step per shared-memory operation (queue   *)
(* push/pop, atomic read-modify-write), run by several threads at once.    *)
(* Follows src/pool/mod.rs and src/pool/futures/get_handle.rs.             *)
(* Starting from every consistent quiescent situation of the pool, the     *)
(* threads each perform one action (poll an acquisition, drop a handle,    *)
(* drop a pending acquisition); all interleavings are explored.            *)
(***************************************************************************)
EXTENDS PoolContract, TLC, Json, CSV

CONSTANTS Threads, Configs, MaxConns, OutFile,
  Weaks     \* {"none"}: the algorithm as it is; other names leave out or move one of its steps (see PoolWeak.tla)

VARIABLES min, max,
          new,      \* the connecting slot: 0 or connection
          est,      \* connection -> "wait" | "ok" | "bad" while it is being established
          aw,       \* connection being established -> future that polled it last
          idle,     \* idle queue
          tasks,    \* wakers registered with the pool
          total, ongoing,
          lent,     \* handle -> connection
          pend, woken,
          nc,
          act,      \* thread -> [k, x]: what it does
          pc, loc,  \* thread -> label, locals
          weak      \* which step is missing

vars == <<min, max, new, est, aw, idle, tasks, total, ongoing, lent, pend, woken, nc, act, pc, loc, weak>>
shared == <<min, max, new, est, aw, idle, tasks, total, ongoing, lent, pend, woken, nc, act>>

ToSet(s) == {s[i] : i \in DOMAIN s}
\* connections the pool owns: lent, idle, or being established somewhere
Held(t) == IF loc[t].nw # 0 THEN {loc[t].nw} ELSE {}
Owned == (({lent[h] : h \in DOMAIN lent} \ {0}) \cup ToSet(idle) \cup (IF new # 0 THEN {new} ELSE {}) \cup UNION {Held(t) : t \in Threads})

L0 == [nw |-> 0, reg |-> FALSE, ret |-> "", got |-> 0]

\* situations: l handles lent (named 1..l), i idle connections, possibly an attempt, w waiting futures 11, 12
Init ==
  /\ \E c \in Configs : min = c \div 10 /\ max = c % 10
  /\ \E l \in 0..max, n \in {0, 1}, w \in 0..2, st \in {"wait", "ok", "bad"} :
       \E ii \in 0..min :
       /\ l + ii + n <= max
       /\ (n = 0 => st = "wait")
       \* waiting futures are justified: nothing idle, and no capacity or somebody is connecting
       /\ (w > 0 => ii = 0 /\ (l = max \/ n = 1))
       /\ lent = [h \in 1..l |-> h]
       /\ idle = [x \in 1..ii |-> l + x]
       /\ new = IF n = 1 THEN l + ii + 1 ELSE 0
       /\ est = IF n = 1 THEN (l + ii + 1 :> st) ELSE <<>>
       /\ pend = {10 + x : x \in 1..w}
       /\ aw = IF n = 1 THEN (l + ii + 1 :> IF w > 0 THEN 11 ELSE 0) ELSE <<>>
       \* an answered attempt has woken the future that watches it
       /\ woken = IF n = 1 /\ st # "wait" /\ w > 0 THEN {11} ELSE {}
       /\ tasks = pend \ woken
       /\ total = l + ii + n /\ ongoing = l /\ nc = l + ii + n
  /\ act \in [Threads -> [k : {"poll", "get", "drop", "cancel"}, x : {1, 2, 11, 12, 20}]]
  /\ \A t \in Threads : CASE act[t].k = "poll" -> act[t].x \in woken
                          [] act[t].k = "get" -> act[t].x = 20
                          [] act[t].k = "drop" -> act[t].x \in DOMAIN lent
                          [] act[t].k = "cancel" -> act[t].x \in pend
  /\ \A t, u \in Threads : t # u /\ act[t].k # "get" => act[t].x # act[u].x
  /\ pc = [t \in Threads |-> "start"] /\ loc = [t \in Threads |-> L0] /\ weak \in Weaks

\* a future started by thread t
F(t) == IF act[t].k = "get" THEN 20 + t ELSE act[t].x
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Set(t, r) == loc' = [loc EXCEPT ![t] = r]
Wake(f) == IF f \in pend THEN woken' = woken \cup {f} ELSE UNCHANGED woken

Start(t) ==
  /\ pc[t] = "start"
  /\ CASE act[t].k \in {"poll", "get"} ->
            /\ pend' = pend \cup {F(t)} /\ woken' = woken \ {F(t)} /\ Go(t, "popnew")
            /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, total, ongoing, lent, nc, act, loc>>
       [] act[t].k = "drop" -> Go(t, IF min = 0 THEN "close" ELSE IF weak = "idle2" THEN "lookidle" ELSE IF weak = "unlendearly" THEN "unlend" ELSE "pushidle") /\ UNCHANGED <<shared, loc>>
       [] act[t].k = "cancel" ->
            /\ pend' = pend \ {F(t)} /\ woken' = woken \ {F(t)} /\ Go(t, IF weak = "cancelwake" THEN "done" ELSE "wake") /\ Set(t, [loc[t] EXCEPT !.ret = "done"])
            /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, total, ongoing, lent, nc, act>>

\* handle_futures
PopNew(t) ==
  /\ pc[t] = "popnew"
  /\ IF new = 0 THEN Go(t, "popidle") /\ UNCHANGED <<new, loc, aw>>
     ELSE /\ Set(t, [loc[t] EXCEPT !.nw = new]) /\ new' = 0 /\ Go(t, "pollnew") /\ aw' = [aw EXCEPT ![new] = F(t)]
  /\ UNCHANGED <<min, max, est, idle, tasks, total, ongoing, lent, pend, woken, nc, act>>
PollNew(t) ==
  /\ pc[t] = "pollnew"
  /\ LET c == loc[t].nw IN
     CASE est[c] = "ok" -> Go(t, IF weak = "newwake" THEN "lend" ELSE "wake") /\ Set(t, [loc[t] EXCEPT !.ret = "lend", !.got = c]) /\ UNCHANGED shared
       [] est[c] = "bad" -> Go(t, "unpermit") /\ Set(t, [loc[t] EXCEPT !.ret = "err", !.nw = 0]) /\ UNCHANGED shared
       [] OTHER -> /\ IF new = 0 THEN new' = c /\ Go(t, "popidle") /\ Set(t, [loc[t] EXCEPT !.nw = 0])
                      ELSE Go(t, "unpermit") /\ Set(t, [loc[t] EXCEPT !.nw = 0, !.ret = "popidle"]) /\ UNCHANGED new
                   /\ UNCHANGED <<min, max, est, aw, idle, tasks, total, ongoing, lent, pend, woken, nc, act>>
\* Permit::drop: give the capacity back, then wake everybody
Unpermit(t) ==
  /\ pc[t] = "unpermit" /\ weak # "early"
  /\ total' = IF weak = "leak" /\ act[t].k \in {"poll", "get"} THEN total ELSE total - 1
  /\ Go(t, IF weak = "unpermitwake" THEN loc[t].ret ELSE "wake")
  /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, ongoing, lent, pend, woken, nc, act, loc>>
\* ... or, when that is what is to go wrong, the other way round
UnpermitEarly(t) ==
  /\ pc[t] = "unpermit" /\ weak = "early"
  /\ tasks' = {} /\ woken' = woken \cup (tasks \cap pend) /\ Go(t, "unpermitlate")
  /\ UNCHANGED <<min, max, new, est, aw, idle, total, ongoing, lent, pend, nc, act, loc>>
UnpermitLate(t) ==
  /\ pc[t] = "unpermitlate" /\ total' = total - 1 /\ Go(t, loc[t].ret)
  /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, ongoing, lent, pend, woken, nc, act, loc>>
WakeLoop(t) ==
  /\ pc[t] = "wake"
  /\ IF tasks = {} THEN Go(t, loc[t].ret) /\ UNCHANGED shared
     ELSE \E f \in tasks : tasks' = tasks \ {f} /\ Wake(f) /\ Go(t, IF weak = "wakeone" THEN loc[t].ret ELSE "wake")
                           /\ UNCHANGED <<min, max, new, est, aw, idle, total, ongoing, lent, pend, nc, act>>
  /\ UNCHANGED loc
Lend(t) ==
  /\ pc[t] = "lend"
  /\ ongoing' = ongoing + 1 /\ lent' = With(lent, F(t), loc[t].got) /\ pend' = pend \ {F(t)} /\ woken' = woken \ {F(t)}
  /\ Set(t, [loc[t] EXCEPT !.nw = 0]) /\ Go(t, "done")
  /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, total, nc, act>>
Err(t) ==
  /\ pc[t] = "err" /\ pend' = pend \ {F(t)} /\ woken' = woken \ {F(t)} /\ Go(t, "done")
  /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, total, ongoing, lent, nc, act, loc>>
PopIdle(t) ==
  /\ pc[t] = "popidle"
  /\ IF idle = <<>> THEN Go(t, "isempty") /\ UNCHANGED <<idle, loc>>
     ELSE idle' = Tail(idle) /\ Set(t, [loc[t] EXCEPT !.got = Head(idle), !.nw = Head(idle), !.ret = "lend"]) /\ Go(t, "peek")
  /\ UNCHANGED <<min, max, new, est, aw, tasks, total, ongoing, lent, pend, woken, nc, act>>
Peek(t) == pc[t] = "peek" /\ Go(t, IF new # 0 /\ weak # "peekwake" THEN "wake" ELSE "lend") /\ UNCHANGED <<shared, loc>>
IsEmpty(t) == pc[t] = "isempty" /\ Go(t, IF new # 0 THEN "register" ELSE "permit") /\ UNCHANGED <<shared, loc>>
GetPermit(t) ==
  /\ pc[t] = "permit"
  /\ IF weak = "permit2" THEN Go(t, IF total < max THEN "permit2" ELSE "register") /\ UNCHANGED <<total, nc, loc, est, aw>>
     ELSE IF total < max THEN /\ total' = total + 1 /\ nc' = nc + 1 /\ Go(t, "pushnew")
                         /\ Set(t, [loc[t] EXCEPT !.nw = nc + 1])
                         /\ est' = (nc + 1 :> "wait") @@ est /\ aw' = (nc + 1 :> 0) @@ aw
     ELSE Go(t, "register") /\ UNCHANGED <<total, nc, loc, est, aw>>
  /\ UNCHANGED <<min, max, new, idle, tasks, ongoing, lent, pend, woken, act>>
Permit2(t) ==
  /\ pc[t] = "permit2" /\ total' = total + 1 /\ nc' = nc + 1 /\ Go(t, "pushnew")
  /\ Set(t, [loc[t] EXCEPT !.nw = nc + 1]) /\ est' = (nc + 1 :> "wait") @@ est /\ aw' = (nc + 1 :> 0) @@ aw
  /\ UNCHANGED <<min, max, new, idle, tasks, ongoing, lent, pend, woken, act>>
PushNew(t) ==
  /\ pc[t] = "pushnew"
  /\ IF new = 0 THEN new' = loc[t].nw /\ Set(t, [loc[t] EXCEPT !.nw = 0]) /\ Go(t, "popnew")
     ELSE Go(t, "unpermit") /\ Set(t, [loc[t] EXCEPT !.nw = 0, !.ret = "register"]) /\ UNCHANGED new
  /\ UNCHANGED <<min, max, est, aw, idle, tasks, total, ongoing, lent, pend, woken, nc, act>>
Register(t) ==
  /\ pc[t] = "register"
  /\ IF loc[t].reg THEN Go(t, "done") /\ UNCHANGED <<tasks, loc>>
     ELSE tasks' = tasks \cup {F(t)} /\ Set(t, [loc[t] EXCEPT !.reg = TRUE]) /\ Go(t, IF weak = "once" THEN "done" ELSE "popnew")
  /\ UNCHANGED <<min, max, new, est, aw, idle, total, ongoing, lent, pend, woken, nc, act>>
\* return_conn
PushIdle(t) ==
  /\ pc[t] = "pushidle"
  /\ LET c == lent[act[t].x] IN
     IF (Len(idle) < min /\ Len(idle) < max) \/ weak = "idle2"
     THEN idle' = Append(idle, c) /\ lent' = Without(lent, act[t].x) /\ Go(t, IF weak = "unlendearly" THEN "done" ELSE "unlend") /\ UNCHANGED total
     ELSE Go(t, "close") /\ UNCHANGED <<idle, lent, total>>
  /\ UNCHANGED <<min, max, new, est, aw, tasks, ongoing, pend, woken, nc, act, loc>>
LookIdle(t) == pc[t] = "lookidle" /\ Go(t, IF Len(idle) < min /\ Len(idle) < max THEN "pushidle" ELSE "close") /\ UNCHANGED <<shared, loc>>
Close(t) ==
  /\ pc[t] = "close"
  /\ lent' = Without(lent, act[t].x) /\ Go(t, "unpermit") /\ Set(t, [loc[t] EXCEPT !.ret = IF weak = "unlendearly" /\ min > 0 THEN "done" ELSE "unlend"])
  /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, total, ongoing, pend, woken, nc, act>>
Unlend(t) ==
  /\ pc[t] = "unlend" /\ ongoing' = ongoing - 1
  /\ LET then == IF weak = "unlendearly" /\ min > 0 THEN "pushidle" ELSE "done" IN
     Go(t, IF weak = "unlendwake" THEN then ELSE "wake") /\ Set(t, [loc[t] EXCEPT !.ret = then])
  /\ UNCHANGED <<min, max, new, est, aw, idle, tasks, total, lent, pend, woken, nc, act>>

Step(t) == /\ \/ Start(t) \/ PopNew(t) \/ PollNew(t) \/ Unpermit(t) \/ WakeLoop(t) \/ Lend(t) \/ Err(t) \/ PopIdle(t)
              \/ Peek(t) \/ IsEmpty(t) \/ GetPermit(t) \/ PushNew(t) \/ Register(t) \/ PushIdle(t) \/ Close(t) \/ Unlend(t)
              \/ UnpermitEarly(t) \/ UnpermitLate(t) \/ Permit2(t) \/ LookIdle(t)
           /\ UNCHANGED weak
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in Threads : pc[t] = "done"
\* P01 at every instant
Bound == Cardinality(Owned) <= max /\ total <= max
\* P02
Exclusive == \A g, h \in DOMAIN lent : g # h /\ lent[g] # 0 => lent[g] # lent[h]
\* P05
IdleBound == Len(idle) <= min
\* P03: once everything is quiet nobody waits in vain; an attempt somebody waits for is watched by a live future
NoLost == Done /\ pend # {} /\ woken \cap pend = {} =>
            /\ idle = <<>>
            /\ (new # 0 \/ Cardinality(Owned) = max)
            /\ (new # 0 => aw[new] \in pend)
\* P04
Count == Done => ongoing = Cardinality(DOMAIN lent) /\ total = Cardinality(Owned)
\* Two threads can in theory take the connecting slot from each other again and again, each time
\* giving up the attempt made before (the code is obstruction-free, not wait-free).
Finite == nc <= MaxConns
\* The situations and actions, for the replay on the real pool (each pair of actions in one order only)
Num(a) == (CASE a.k = "poll" -> 0 [] a.k = "get" -> 100 [] a.k = "drop" -> 200 [] OTHER -> 300) + a.x
Emit == IF (\A t \in Threads : pc[t] = "start") /\ (\A t, u \in Threads : t < u => Num(act[t]) <= Num(act[u]))
        THEN CSVWrite("%1$s", <<ToJson([min |-> min, max |-> max, l |-> Cardinality(DOMAIN lent), i |-> Len(idle),
                                        st |-> IF new = 0 THEN "none" ELSE est[new], w |-> Cardinality(pend), wk |-> woken,
                                        act |-> [t \in Threads |-> <<act[t].k, act[t].x>>]])>>, OutFile)
        ELSE TRUE
=============================================================================
