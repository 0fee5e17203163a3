------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A client handle, the pool behind it and the server it talks to, at the  *)
(* level of protocol packets.  The spec follows the code: lib.rs (ping,    *)
(* execute, insert, wrap_future / wrap_stream / check_connection),         *)
(* retry_guard.rs, io/transport.rs (clear, read_block) and                 *)
(* query_result/stream_blocks.rs (states Reading / Finished / Error).      *)
(*                                                                         *)
(* A behaviour is a history of steps.  Each step is a client operation,    *)
(* the way the server answers it, and something that happens to the        *)
(* connections just before it.  The answer a caller must get (Answer) is   *)
(* defined from the statement alone; the result the caller does get        *)
(* (r.res) is computed by playing the packets through the channels.        *)
(* TLC checks that they agree (Pairing, Once, ...), and writes every       *)
(* complete history to OutFile for replay against the real client.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Depth,     \* number of free steps
          OutFile,   \* where histories are written ("" = nowhere)
          Full,      \* FALSE: smaller menu for the later steps
          Retries    \* send_retries

VARIABLES cfg,   \* [ping, comp, pool]: check of the connection before each query, compression,
                 \* and whether the handle comes from a pool or from Client::connect
          conns, \* all connections ever made: sequence of [ch, up, rest]
          h,     \* connection the handle holds (0: none)
          inc,   \* that connection has an unfinished answer in flight
          idle,  \* the pool's idle connection: <<>> or <<[c, inc]>>
          fuzzy, \* a future was cancelled at an arbitrary point: the handle may have lost its connection
          sent,  \* tags of the statements that reached a server
          hist

vars == <<cfg, conns, h, inc, idle, fuzzy, sent, hist>>

--------------------------------------------------------------------------
(* Server scripts.  A packet is [k, t, n]: kind, tag of the statement it   *)
(* answers, block number.                                                  *)
P(k, t, n) == [k |-> k, t |-> t, n |-> n]
Hdr(t) == P("hdr", t, 0)
Blk(t, n) == P("blk", t, n)
Eos(t) == P("eos", t, 0)
Exc(t) == P("exc", t, 0)
Prog(t) == P("prog", t, 0)
Close == P("close", 0, 0)
Bad == P("bad", 0, 0)

Script(beh, t) ==
  CASE beh = "ok0" -> <<Hdr(t), Eos(t)>>
    [] beh = "ok2" -> <<Hdr(t), Blk(t,1), Prog(t), Blk(t,2), Eos(t)>>
    [] beh = "none" -> <<Eos(t)>>
    [] beh = "exc0" -> <<Exc(t)>>
    [] beh = "exc1" -> <<Hdr(t), Blk(t,1), Exc(t)>>
    [] beh = "excclose" -> <<Hdr(t), Exc(t), Close>>
    [] beh = "close0" -> <<Close>>
    [] beh = "close1" -> <<Hdr(t), Blk(t,1), Close>>
    [] beh = "reset1" -> <<Hdr(t), Blk(t,1), Close>>
    [] beh = "bad1" -> <<Hdr(t), Blk(t,1), Bad>>
    [] beh = "unexp1" -> <<Hdr(t), Blk(t,1), P("pong", t, 0)>>
    [] beh = "full" -> <<Hdr(t), Blk(t,1), Blk(t,2), Eos(t)>>
    [] beh \in {"parteos", "partblk", "partexc", "partsilent", "stall"} -> <<Hdr(t), Blk(t,1)>>
    \* answers to INSERT: script for the statement; the data has its own (Script2)
    [] beh \in {"ins", "insexc", "insclose", "insstall"} -> <<Hdr(t)>>
    [] beh = "insexc0" -> <<Exc(t)>>
    [] beh = "insclose0" -> <<Close>>
    [] beh = "insnohdr" -> <<Eos(t)>>

\* what the server sends when the unfinished statement is cancelled
Rest(beh, t) ==
  CASE beh = "parteos" -> <<Eos(t)>>
    [] beh = "partblk" -> <<Blk(t,2), Prog(t), Eos(t)>>
    [] beh = "partexc" -> <<Exc(t)>>
    [] OTHER -> <<>>

\* what the server sends once it has the inserted data
Script2(beh, t) ==
  CASE beh = "ins" -> <<Eos(t)>>
    [] beh = "insexc" -> <<Exc(t)>>
    [] beh = "insclose" -> <<Close>>
    [] OTHER -> <<>>

QueryBehs == {"ok0", "ok2", "none", "exc0", "exc1", "excclose", "close0", "close1", "reset1", "bad1", "unexp1"}
DropBehs == {"full", "parteos", "partblk", "partexc", "partsilent", "exc1", "close1"}
InsBehs == {"ins", "insexc", "insclose", "insexc0", "insclose0", "insnohdr"}

--------------------------------------------------------------------------
(* The answer a caller is entitled to, from the statement alone.           *)
RECURSIVE Blocks(_)
Blocks(s) == IF s = <<>> THEN <<>>
             ELSE IF Head(s).k = "blk" THEN <<Head(s).n>> \o Blocks(Tail(s)) ELSE Blocks(Tail(s))
Has(s, k) == \E i \in DOMAIN s : s[i].k = k
R(res, blocks) == [res |-> res, blocks |-> blocks]
Answer(op, beh, t) ==
  LET s == IF op \in {"ping", "connect", "renew"} THEN <<>> ELSE Script(beh, t) \o (IF op = "insert" THEN Script2(beh, t) ELSE <<>>) IN
  IF op \in {"ping", "connect"} THEN R(CASE beh = "ok0" -> "ok" [] beh \in {"exc0", "excclose"} -> "exc" [] OTHER -> "err", <<>>)
  ELSE IF op = "renew" THEN R("ok", <<>>)
  ELSE IF op = "cancel" THEN R("cancelled", <<>>)
  ELSE IF op \in {"drop0", "drop1"} THEN
         \* blocks taken before the stream is dropped
         LET lim == IF op = "drop0" THEN 0 ELSE 1 IN
         R("dropped", SubSeq(Blocks(s), 1, lim))
  ELSE IF Has(s, "exc") THEN R("exc", <<>>)
  ELSE IF op = "insert" /\ beh = "insnohdr" THEN R("err", <<>>)
  ELSE IF s # <<>> /\ s[Len(s)].k = "eos" THEN (IF op \in {"fetch", "stream"} THEN R("rows", Blocks(s)) ELSE R("ok", <<>>))
  ELSE R("err", <<>>)

--------------------------------------------------------------------------
(* The client, as operators on S = [conns, h, inc, idle].                  *)
NewConn == [ch |-> <<>>, up |-> TRUE, rest |-> <<>>, png |-> "ok0"]   \* png: how it answers a ping
Push(S, c, pkts) == [S EXCEPT !.conns[c].ch = @ \o pkts]
SetCh(S, c, ch) == [S EXCEPT !.conns[c].ch = ch]
Lost(S) == [S EXCEPT !.h = 0, !.inc = FALSE]

Pong(png) == CASE png = "ok0" -> P("pong", 0, 0) [] png = "exc0" -> Exc(0) [] png = "bad1" -> Bad [] png = "unexp1" -> Hdr(0) [] OTHER -> Close
SendPing(S, c) == IF S.conns[c].up THEN [Push(S, c, <<Pong(S.conns[c].png)>>) EXCEPT !.conns[c].up = (S.conns[c].png # "close0")] ELSE S
SendCancel(S, c) == IF S.conns[c].up THEN [Push(S, c, S.conns[c].rest) EXCEPT !.conns[c].rest = <<>>] ELSE S
SendQuery(S, c, pkts, rest) ==
  IF ~S.conns[c].up THEN S
  ELSE [Push(S, c, pkts) EXCEPT !.conns[c].rest = rest, !.conns[c].up = ~Has(pkts, "close")]

RECURSIVE DrainCh(_)
DrainCh(ch) == IF ch = <<>> THEN [ok |-> FALSE, ch |-> ch]
               ELSE CASE Head(ch).k \in {"eos", "pong"} -> [ok |-> TRUE, ch |-> Tail(ch)]
                      [] Head(ch).k \in {"hdr", "blk", "prog"} -> DrainCh(Tail(ch))
                      [] OTHER -> [ok |-> FALSE, ch |-> ch]

\* transport.clear(): finish the abandoned answer
Clear(S) ==
  IF S.h = 0 THEN [ok |-> FALSE, S |-> S]
  ELSE IF ~S.inc THEN [ok |-> TRUE, S |-> S]
  ELSE LET S1 == SendCancel(S, S.h)
           d == DrainCh(S1.conns[S.h].ch)
       IN IF d.ok THEN [ok |-> TRUE, S |-> [SetCh(S1, S.h, d.ch) EXCEPT !.inc = FALSE]]
          ELSE [ok |-> FALSE, S |-> Lost(S1)]

PingOnce(S) ==
  LET c == Clear(S) IN
  IF ~c.ok THEN c
  ELSE LET S1 == SendPing(c.S, c.S.h)
           ch == S1.conns[S1.h].ch
       IN IF ch # <<>> /\ Head(ch).k = "pong"
          THEN [ok |-> TRUE, S |-> SetCh(S1, S1.h, Tail(ch))]
          ELSE [ok |-> FALSE, S |-> Lost(S1), exc |-> ch # <<>> /\ Head(ch).k = "exc"]

\* pool.get_handle(); env is how the server treats new connections
Connect(S, env) ==
  IF S.idle # <<>> THEN [ok |-> TRUE, S |-> [S EXCEPT !.h = S.idle[1].c, !.inc = S.idle[1].inc, !.idle = <<>>]]
  ELSE IF env \in {"refuse", "exc"} THEN [ok |-> FALSE, S |-> S]
  ELSE [ok |-> TRUE, S |-> [S EXCEPT !.conns = Append(@, [NewConn EXCEPT !.up = (env # "noping")]),
                                     !.h = Len(S.conns) + 1, !.inc = FALSE]]

\* retry_guard
RECURSIVE Guard(_, _, _, _)
Guard(S, att, skip, env) ==
  LET c == IF skip THEN [ok |-> FALSE, S |-> S] ELSE PingOnce(S) IN
  IF ~skip /\ c.ok THEN c
  ELSE IF ~skip /\ att >= Retries THEN c
  ELSE LET n == Connect(Lost(c.S), env) IN
       IF n.ok THEN Guard(n.S, att + 1, FALSE, env)
       ELSE IF att >= Retries THEN [ok |-> FALSE, S |-> n.S]
       ELSE Guard(n.S, att + 1, TRUE, env)

Prepare(S, ping, env) == IF ping THEN Guard(S, 0, FALSE, env) ELSE Clear(S)

\* reading an answer: lim = number of blocks after which the caller stops
RECURSIVE Read(_, _, _)
Read(ch, acc, lim) ==
  IF Len(acc) = lim THEN [res |-> "part", acc |-> acc, ch |-> ch]
  ELSE IF ch = <<>> THEN [res |-> "timeout", acc |-> acc, ch |-> ch]
  ELSE LET p == Head(ch) IN
       CASE p.k = "blk" -> Read(Tail(ch), Append(acc, p), lim)
         [] p.k \in {"hdr", "prog"} -> Read(Tail(ch), acc, lim)
         [] p.k = "eos" -> [res |-> "done", acc |-> Append(acc, p), ch |-> Tail(ch)]
         [] p.k = "exc" -> [res |-> "exc", acc |-> <<p>>, ch |-> Tail(ch)]
         [] OTHER -> [res |-> "fail", acc |-> acc, ch |-> Tail(ch)]

\* every packet used for an answer must carry the tag of the statement
OwnTags(acc, t) == \A i \in DOMAIN acc : acc[i].t = t
BlkNos(acc) == LET a == SelectSeq(acc, LAMBDA p : p.k = "blk") IN [i \in DOMAIN a |-> a[i].n]

Result(S, res, blocks, own, reached) == [S |-> S, res |-> R(res, blocks), own |-> own, reached |-> reached]

Query(S, op, beh, t) ==
  LET c == S.h
      reached == S.conns[c].up
      S1 == SendQuery(S, c, Script(beh, t), Rest(beh, t))
      lim == CASE op = "drop0" -> 0 [] op = "drop1" -> 1 [] OTHER -> 99
      r == Read(S1.conns[c].ch, <<>>, lim)
      S2 == SetCh(S1, c, r.ch)
  IN CASE r.res = "part" -> Result([S2 EXCEPT !.inc = TRUE], "dropped", BlkNos(r.acc), OwnTags(r.acc, t), reached)
       [] r.res = "done" -> Result(S2, IF op \in {"fetch", "stream"} THEN "rows" ELSE IF op \in {"drop0", "drop1"} THEN "dropped" ELSE "ok",
                                   IF op = "exec" THEN <<>> ELSE BlkNos(r.acc), OwnTags(r.acc, t), reached)
       [] r.res = "exc" -> Result(Lost(S2), "exc", <<>>, OwnTags(r.acc, t), reached)
       [] r.res = "timeout" -> Result(IF op \in {"fetch", "stream", "drop0", "drop1"} THEN [S2 EXCEPT !.inc = TRUE] ELSE Lost(S2), "err", <<>>, TRUE, reached)
       [] OTHER -> Result(Lost(S2), "err", <<>>, TRUE, reached)

Insert(S, beh, t) ==
  LET c == S.h
      reached == S.conns[c].up
      S1 == SendQuery(S, c, Script(beh, t), <<>>)
      ch == S1.conns[c].ch
  IN IF ch # <<>> /\ Head(ch).k = "hdr"
     THEN LET S2 == SendQuery(SetCh(S1, c, Tail(ch)), c, Script2(beh, t), <<>>)
              r == Read(S2.conns[c].ch, <<>>, 99)
              S3 == SetCh(S2, c, r.ch)
          IN CASE r.res = "done" -> Result(S3, "ok", <<>>, Head(ch).t = t /\ OwnTags(r.acc, t), reached)
               [] r.res = "exc" -> Result(Lost(S3), "exc", <<>>, OwnTags(r.acc, t), reached)
               [] OTHER -> Result(Lost(S3), "err", <<>>, TRUE, reached)
     ELSE IF ch # <<>> /\ Head(ch).k = "exc" THEN Result(Lost(S1), "exc", <<>>, Head(ch).t = t, reached)
     ELSE Result(Lost(S1), "err", <<>>, TRUE, reached)

\* dropping the handle returns its connection to the pool (pool_min = 1)
DropHandle(S) ==
  IF S.h = 0 \/ S.idle # <<>> \/ ~cfg.pool THEN Lost(S)
  ELSE [Lost(S) EXCEPT !.idle = <<[c |-> S.h, inc |-> S.inc]>>]

Do(S, op, beh, t, env) ==
  CASE op = "renew" -> LET n == Connect(DropHandle(S), "up") IN Result(n.S, "ok", <<>>, TRUE, FALSE)
    [] op = "ping" ->
        LET p == PingOnce(IF beh # "ok0" /\ S.h # 0 THEN [S EXCEPT !.conns[S.h].png = beh] ELSE S) IN
        Result(p.S, IF p.ok THEN "ok" ELSE IF "exc" \in DOMAIN p /\ p.exc THEN "exc" ELSE "err", <<>>, TRUE, FALSE)
    \* another connection altogether, whose greeting is answered so
    [] op = "connect" -> Result(S, Answer(op, beh, t).res, <<>>, TRUE, FALSE)
    \* a future dropped midway takes its connection with it or leaves it to be drained;
    \* the latter is the worse case for those who come next
    [] op = "cancel" ->
        LET p == Prepare(S, cfg.ping, env) IN
        IF ~p.ok \/ beh \in {"ins", "insstall"} THEN Result(Lost(p.S), "cancelled", <<>>, TRUE, FALSE)
        ELSE Result([SendQuery(p.S, p.S.h, Script(beh, t), Rest(beh, t)) EXCEPT !.inc = TRUE], "cancelled", <<>>, TRUE, TRUE)
    [] OTHER ->
        LET p == Prepare(S, cfg.ping, env) IN
        IF ~p.ok THEN Result(p.S, "err", <<>>, TRUE, FALSE)
        ELSE IF op = "insert" THEN Insert(p.S, beh, t)
        ELSE Query(p.S, op, beh, t)

--------------------------------------------------------------------------
\* what happens to the connections before the step
Before(S, pre) ==
  CASE pre \in {"kill", "killrefuse", "killnoping", "killexc"} ->
         [S EXCEPT !.conns = [i \in DOMAIN @ |-> IF @[i].up THEN [@[i] EXCEPT !.up = FALSE, !.ch = Append(@, Close), !.rest = <<>>] ELSE @[i]]]
    [] pre = "mute" -> [S EXCEPT !.conns = [i \in DOMAIN @ |-> [@[i] EXCEPT !.up = FALSE, !.rest = <<>>]]]
    [] pre = "pingexc" -> [S EXCEPT !.conns = [i \in DOMAIN @ |-> [@[i] EXCEPT !.png = "exc0"]]]
    [] OTHER -> S
Env(pre) == CASE pre = "killrefuse" -> "refuse" [] pre = "killexc" -> "exc" [] pre = "killnoping" -> "noping" [] OTHER -> "up"

Steps(full) ==
  LET pres == IF full THEN {"none", "kill", "mute", "killrefuse", "killnoping", "killexc", "pingexc"} ELSE {"none", "kill"} IN
  [op : {"fetch"}, beh : QueryBehs \cup {"stall"}, pre : {"none"}]
  \cup [op : {"stream"}, beh : QueryBehs, pre : {"none"}]
  \cup [op : {"exec"}, beh : (QueryBehs \ {"none"}) \cup {"stall"}, pre : {"none"}]
  \cup [op : {"insert"}, beh : InsBehs \cup {"insstall"}, pre : {"none"}]
  \cup [op : {"drop0", "drop1"}, beh : DropBehs, pre : {"none"}]
  \cup [op : {"cancel"}, beh : {"ok2", "full", "stall", "ins", "insstall"}, pre : {"none"}]
  \cup [op : {"renew"}, beh : {"ok0"}, pre : {"none"}]
  \cup [op : {"ping"}, beh : {"ok0", "exc0", "bad1", "close0", "unexp1"}, pre : {"none"}]
  \cup [op : {"connect"}, beh : {"ok0", "exc0", "excclose", "close0", "cut", "bad1", "unexp1"}, pre : {"none"}]
  \cup [op : {"fetch", "stream", "exec"}, beh : {"ok2"}, pre : pres]
  \cup [op : {"insert"}, beh : {"ins"}, pre : pres]
  \cup [op : {"ping"}, beh : {"ok0"}, pre : {"kill"}]
  \cup [op : {"fetch"}, beh : {"exc0"}, pre : pres]

Small ==
  [op : {"fetch"}, beh : {"ok2", "exc1", "close1"}, pre : {"none"}]
  \cup [op : {"stream"}, beh : {"ok2", "bad1"}, pre : {"none"}]
  \cup [op : {"exec"}, beh : {"ok2", "exc0", "excclose"}, pre : {"none"}]
  \cup [op : {"insert"}, beh : {"ins", "insexc", "insclose"}, pre : {"none"}]
  \cup [op : {"drop0"}, beh : {"full", "partexc"}, pre : {"none"}]
  \cup [op : {"drop1"}, beh : {"full", "partblk"}, pre : {"none"}]
  \cup [op : {"renew", "ping"}, beh : {"ok0"}, pre : {"none"}]
  \cup [op : {"ping"}, beh : {"exc0"}, pre : {"none"}]
  \cup [op : {"connect"}, beh : {"exc0"}, pre : {"none"}]
  \cup [op : {"cancel"}, beh : {"ok2", "ins"}, pre : {"none"}]
  \cup [op : {"fetch"}, beh : {"ok2"}, pre : {"kill"}]

Q(op) == [op |-> op, beh |-> IF op = "insert" THEN "ins" ELSE IF op = "renew" THEN "ok0" ELSE "ok2", pre |-> "none"]
\* every history ends with this, to see what the last free step left behind
Tail4 == <<Q("fetch"), Q("insert"), Q("renew"), Q("stream")>>

Menu(i) == IF i > Depth THEN {Tail4[i - Depth]} ELSE IF i = 1 \/ Full THEN Steps(TRUE) ELSE Small
Total == Depth + Len(Tail4)

S0 == [conns |-> conns, h |-> h, inc |-> inc, idle |-> idle]

Step(st) ==
  LET t == Len(hist) + 1
      S == Before(S0, st.pre)
      r == Do(S, st.op, st.beh, t, Env(st.pre))
      a == Answer(st.op, st.beh, t)
      alive == h # 0 /\ conns[h].up /\ S.conns[h].up
      hard == st.pre \in {"killrefuse", "killnoping", "killexc"} /\ st.op # "renew"
      \* must the caller get the answer, or is an error of the driver's own allowed?
      must == \/ st.op \in {"renew", "cancel", "connect"}
              \/ (st.op = "ping" /\ alive /\ ~fuzzy)
              \/ (cfg.ping /\ st.op # "ping" /\ ~hard)
              \/ (~cfg.ping /\ alive /\ st.op # "ping" /\ ~fuzzy)
  IN
  /\ conns' = [i \in DOMAIN r.S.conns |-> [r.S.conns[i] EXCEPT !.png = "ok0"]] /\ h' = r.S.h /\ inc' = r.S.inc /\ idle' = r.S.idle
  /\ fuzzy' = (st.op = "cancel" \/ (fuzzy /\ st.op # "renew"))
  /\ sent' = IF r.reached THEN Append(sent, t) ELSE sent
  /\ hist' = Append(hist, [op |-> st.op, beh |-> st.beh, pre |-> st.pre, ans |-> a,
                           must |-> must /\ ~((~cfg.ping \/ st.op = "ping") /\ inc /\ r.res.res = "err" /\ a.res # "err"),
                           fail |-> hard /\ r.res.res = "err",
                           res |-> r.res, own |-> r.own, reached |-> r.reached,
                           made |-> Len(r.S.conns) - Len(conns)])
  /\ UNCHANGED cfg

Init ==
  /\ cfg \in {c \in [ping : BOOLEAN, comp : BOOLEAN, pool : BOOLEAN] : c.pool \/ ~c.comp}
  /\ conns = <<NewConn>> /\ h = 1 /\ inc = FALSE /\ idle = <<>> /\ fuzzy = FALSE /\ sent = <<>> /\ hist = <<>>

Next == Len(hist) < Total /\ \E st \in Menu(Len(hist) + 1) : Step(st)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
Last == hist[Len(hist)]
\* P07: an answer is made of packets of the statement itself, and is that statement's answer
Pairing == hist # <<>> => Last.own /\ (Last.res = Last.ans \/ Last.res.res = "err")
\* P10/P11: with the check ping on, whatever happened before, the caller gets the answer
Recovers == hist # <<>> => (Last.must => Last.res = Last.ans)
\* P10: an exception arrives as an exception
ExcIntact == hist # <<>> => (Last.ans.res = "exc" /\ (Last.reached \/ Last.op = "connect") => Last.res.res = "exc")
\* P11
Once == \A i, j \in DOMAIN sent : sent[i] = sent[j] => i = j
Bounded == hist # <<>> => Last.made <= Retries + 1
NotSent == hist # <<>> => (Last.fail => ~Last.reached)
\* P05: a connection the pool keeps has no failed answer in it
Clean == \A i \in DOMAIN idle : ~Has(conns[idle[i].c].ch, "bad")
TypeOK == h \in 0..Len(conns) /\ Len(idle) <= 1

Emit == IF OutFile # "" /\ Len(hist) = Total
        THEN CSVWrite("%1$s", <<ToJson([cfg |-> cfg, retries |-> Retries, steps |-> [i \in DOMAIN hist |->
                [op |-> hist[i].op, beh |-> hist[i].beh, pre |-> hist[i].pre, ans |-> hist[i].ans,
                 must |-> hist[i].must, fail |-> hist[i].fail]]])>>, OutFile)
        ELSE TRUE
=============================================================================
