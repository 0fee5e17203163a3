-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The pool driven by one executor thread, one future poll at a time.      *)
(* The model follows src/pool/mod.rs (Pool::poll, return_conn,             *)
(* release_conn, Permit) and src/pool/futures/get_handle.rs.               *)
(* The environment decides when acquisitions start, which woken one is     *)
(* polled, which pending one is dropped, how the server treats a           *)
(* connection attempt and what happens to handles.                         *)
(* TLC checks that every event satisfies PoolContract, and writes the      *)
(* stimuli of every history to OutFile for replay on the real pool.        *)
(***************************************************************************)
EXTENDS PoolContract, TLC, Json, CSV

CONSTANTS Depth,
          Configs,   \* pool_min * 10 + pool_max
          MaxFut, OutFile, Rich

VARIABLES cfg,      \* <<min, max>>
          fut,      \* future -> "wait" | "woken"   (pending ones only)
          tasks,    \* futures whose waker is registered with the pool
          new,      \* 0, or the connection being established
          nst,      \* its state: "wait" | "ok" | "bad"
          nw,       \* future that polled it last (its waker gets the result), 0: none alive
          idle,     \* connections in the idle queue, oldest first
          lent,     \* handle -> connection, 0: lost
          incons,   \* connections returned with an unread answer
          nf, nc,   \* futures and connections made so far
          M, blame, hist

vars == <<cfg, fut, tasks, new, nst, nw, idle, lent, incons, nf, nc, M, blame, hist>>

Min == cfg[1]
Max == cfg[2]
Held == {h \in DOMAIN lent : TRUE}
Live == {lent[h] : h \in Held} \ {0}
ToSet(s) == {s[i] : i \in DOMAIN s}
Total == Cardinality(Live) + Len(idle) + (IF new # 0 THEN 1 ELSE 0)
Pend == DOMAIN fut
Woken == {f \in Pend : fut[f] = "woken"}

S == [fut |-> fut, tasks |-> tasks, new |-> new, nst |-> nst, nw |-> nw, idle |-> idle, lent |-> lent, nc |-> nc]
WakeAll(s) == [s EXCEPT !.fut = [f \in DOMAIN @ |-> IF f \in s.tasks THEN "woken" ELSE @[f]], !.tasks = {}]
WakeOne(s, f) == IF f \in DOMAIN s.fut THEN [s EXCEPT !.fut[f] = "woken"] ELSE s
TotalOf(s) == Cardinality({s.lent[h] : h \in DOMAIN s.lent} \ {0}) + Len(s.idle) + (IF s.new # 0 THEN 1 ELSE 0)
Gone(s, f) == [s EXCEPT !.fut = Without(@, f)]
Give(s, f, c) == [Gone(s, f) EXCEPT !.lent = With(@, f, c)]   \* a handle is named after its future

\* Pool::poll by future f; result [s, res, c]
PollBy(s0, f) ==
  LET s == [s0 EXCEPT !.fut = With(@, f, "wait")] IN
  IF s.new # 0 /\ s.nst = "ok"
  THEN [s |-> WakeAll(Give([s EXCEPT !.new = 0, !.nw = 0], f, s.new)), res |-> "got", c |-> s.new]
  ELSE IF s.new # 0 /\ s.nst = "bad"
  THEN [s |-> WakeAll(Gone([s EXCEPT !.new = 0, !.nw = 0], f)), res |-> "err", c |-> 0]
  ELSE LET s1 == IF s.new # 0 THEN [s EXCEPT !.nw = f] ELSE s IN
       IF s1.idle # <<>>
       THEN LET s2 == Give([s1 EXCEPT !.idle = Tail(@)], f, Head(s1.idle)) IN
            [s |-> IF s2.new # 0 THEN WakeAll(s2) ELSE s2, res |-> "got", c |-> Head(s1.idle)]
       ELSE LET s2 == IF s1.new = 0 /\ TotalOf(s1) < cfg[2]
                      THEN [s1 EXCEPT !.new = s1.nc + 1, !.nc = @ + 1, !.nst = "wait", !.nw = f] ELSE s1
            IN [s |-> [s2 EXCEPT !.tasks = @ \cup {f}], res |-> "pending", c |-> 0]

OpenOf(s) == ({s.lent[h] : h \in DOMAIN s.lent} \ {0}) \cup ToSet(s.idle) \cup (IF s.new # 0 /\ s.nst # "bad" THEN {s.new} ELSE {})
AttOf(s) == IF s.new # 0 /\ s.nst # "bad" THEN {s.new} ELSE {}
Ev(k, f, res, h, c, s) ==
  [k |-> k, f |-> f, res |-> res, h |-> h, c |-> c, open |-> OpenOf(s), att |-> AttOf(s), ready |-> IF s.nst = "ok" THEN AttOf(s) ELSE {},
   pend |-> DOMAIN s.fut, woken |-> {x \in DOMAIN s.fut : s.fut[x] = "woken"}, ongoing |-> Cardinality({s.lent[x] : x \in DOMAIN s.lent} \ {0}), n |-> 1, peak |-> Cardinality(OpenOf(s))]

Apply(s, e, stim) ==
  /\ fut' = s.fut /\ tasks' = s.tasks /\ new' = s.new /\ nst' = s.nst /\ nw' = s.nw /\ idle' = s.idle /\ lent' = s.lent /\ nc' = s.nc
  /\ M' = Upd(M, e) /\ blame' = Blame(M, e)
  /\ hist' = Append(hist, stim)
  /\ UNCHANGED cfg

Nth(set, end) == IF end = "F" THEN CHOOSE x \in set : \A y \in set : x <= y ELSE CHOOSE x \in set : \A y \in set : x >= y
Ends(set) == IF set = {} THEN {} ELSE IF Cardinality(set) = 1 THEN {"F"} ELSE {"F", "L"}

Get == /\ Cardinality(Pend) < MaxFut
       /\ LET f == nf + 1
              r == PollBy(S, f)
          IN Apply(r.s, Ev("get", f, r.res, IF r.res = "got" THEN f ELSE 0, r.c, r.s), <<"get">>) /\ nf' = f
       /\ UNCHANGED incons
Poll == \E d \in Ends(Woken) :
          LET f == Nth(Woken, d)
              r == PollBy(S, f)
          IN Apply(r.s, Ev("poll", f, r.res, IF r.res = "got" THEN f ELSE 0, r.c, r.s), <<"poll", d>>) /\ UNCHANGED <<nf, incons>>
Cancel == \E d \in Ends(Pend) :
          LET f == Nth(Pend, d)
              s == WakeAll([Gone(S, f) EXCEPT !.tasks = @ \ {f}, !.nw = IF @ = f THEN 0 ELSE @])
          IN Apply(s, Ev("cancel", f, "none", 0, 0, s), <<"cancel", d>>) /\ UNCHANGED <<nf, incons>>
Server == /\ new # 0 /\ nst = "wait"
          /\ \E r \in {"ok", "bad"} :
               LET s == WakeOne([S EXCEPT !.nst = r], nw)
               IN Apply(s, Ev(IF r = "ok" THEN "ok" ELSE "refuse", 0, "none", 0, 0, s), <<IF r = "ok" THEN "ok" ELSE "refuse">>)
          /\ UNCHANGED <<nf, incons>>
\* dropping a handle: return_conn
Drop == \E d \in Ends(Held) :
          LET h == Nth(Held, d)
              c == lent[h]
              keep == c # 0 /\ c \notin M.broken /\ Min > 0 /\ Len(idle) < Min
              s1 == [S EXCEPT !.lent = Without(@, h), !.idle = IF keep THEN Append(@, c) ELSE @]
              s == IF c # 0 THEN WakeAll(s1) ELSE s1
          IN Apply(s, Ev("drop", 0, "none", h, c, s), <<"drop", d>>) /\ UNCHANGED <<nf, incons>>
\* an operation on the handle fails; its connection is closed
Break == \E d \in Ends({h \in Held : lent[h] # 0}) :
          LET h == Nth({x \in Held : lent[x] # 0}, d)
              s == WakeAll([S EXCEPT !.lent[h] = 0])
          IN Apply(s, Ev("break", 0, "none", h, 0, s), <<"break", d>>) /\ UNCHANGED <<nf, incons>>
\* a result stream is dropped half-read
Half == /\ Rich
        /\ \E d \in Ends({h \in Held : lent[h] # 0 /\ lent[h] \notin incons}) :
          LET h == Nth({x \in Held : lent[x] # 0 /\ lent[x] \notin incons}, d)
          IN Apply(S, Ev("half", 0, "none", h, lent[h], S), <<"half", d>>) /\ incons' = incons \cup {lent[h]} /\ UNCHANGED nf
\* the handle's connection dies and is replaced by the next operation: from the idle queue or anew.
\* The attempt another future is waiting for, if any, is answered and may be taken over.
Recon == /\ Rich
         /\ new = 0
         /\ \E d \in Ends({h \in Held : lent[h] # 0}) :
          LET h == Nth({x \in Held : lent[x] # 0}, d)
              s1 == WakeAll([S EXCEPT !.lent[h] = 0])
              c == IF s1.idle # <<>> THEN Head(s1.idle) ELSE s1.nc + 1
              s == WakeAll([s1 EXCEPT !.lent[h] = c, !.idle = IF s1.idle # <<>> THEN Tail(@) ELSE @, !.nc = IF s1.idle # <<>> THEN @ ELSE @ + 1])
          IN Apply(s, Ev("recon", 0, "none", h, c, s), <<"recon", d>>) /\ UNCHANGED <<nf, incons>>

Init == /\ cfg \in {<<c \div 10, c % 10>> : c \in Configs}
        /\ fut = <<>> /\ tasks = {} /\ new = 0 /\ nst = "wait" /\ nw = 0 /\ idle = <<>> /\ lent = <<>> /\ incons = {} /\ nf = 0 /\ nc = 0
        /\ M = M0(cfg[1], cfg[2]) /\ blame = {} /\ hist = <<>>
Next == Len(hist) < Depth /\ (Get \/ Poll \/ Cancel \/ Server \/ Drop \/ Break \/ Half \/ Recon)
Spec == Init /\ [][Next]_vars

Contract == blame = {}
TypeOK == Total <= Max /\ Len(idle) <= Min
\* nothing waits for a wake-up that cannot come: an attempt in progress has a live poller or nobody waits
Watched == (new # 0 /\ Pend # {} /\ Woken = {}) => (nw \in Pend \/ tasks # {})
Emit == IF OutFile # "" /\ Len(hist) = Depth
        THEN CSVWrite("%1$s", <<ToJson([min |-> cfg[1], max |-> cfg[2], stim |-> hist])>>, OutFile) ELSE TRUE
=============================================================================
