---------------------------- MODULE PoolContract ----------------------------
(***************************************************************************)
(* What a connection pool owes its users, in terms of what can be seen     *)
(* from outside: which acquisitions are pending, woken, resolved; which    *)
(* connections the server sees open; which handle uses which connection.   *)
(*                                                                         *)
(* A monitor state is                                                      *)
(*   [min, max  configuration                                              *)
(*    open      connections the server sees open                           *)
(*    att       those that have never been given to a handle yet           *)
(*    lent      handle -> connection (0: the connection is gone)           *)
(*    broken    connections on which an operation failed                   *)
(*    refused   handshakes refused so far                                  *)
(*    errs]     acquisitions that ended with an error                      *)
(*                                                                         *)
(* An event is                                                             *)
(*   [k     what was done: get poll cancel ok refuse drop break half recon *)
(*          settle end probe; part pdrop: one of several things done at    *)
(*          once by different threads, and race: all of them are done      *)
(*    f, res  the acquisition polled and its result: pending got err none  *)
(*    h, c    the handle concerned and the connection it talked over       *)
(*    open, att, pend, woken  what is visible once things have settled     *)
(*    ready   members of att whose handshake the server has answered       *)
(*    ongoing, n  lent connections the pool reports (-1: unknown);        *)
(*                 number of handles acquired by a probe                   *)
(*    peak] the most connections that existed at once since the last event *)
(*                                                                         *)
(* Blame(M, e) names the properties e violates; Upd(M, e) is the next      *)
(* monitor state.  The same two operators judge the models (Pool.tla,      *)
(* PoolImpl.tla) and the traces recorded from the real pool (PoolTrace).   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

M0(min, max) == [min |-> min, max |-> max, open |-> {}, att |-> {}, lent |-> <<>>,
                 broken |-> {}, refused |-> 0, errs |-> 0, attempts |-> 0]

LentConns(M) == {M.lent[h] : h \in DOMAIN M.lent} \ {0}
IdleOf(M) == M.open \ (M.att \cup LentConns(M))
Without(fn, h) == [x \in DOMAIN fn \ {h} |-> fn[x]]
With(fn, h, c) == [x \in DOMAIN fn \cup {h} |-> IF x = h THEN c ELSE fn[x]]

\* the handles after the event
LentAfter(M, e) ==
  CASE e.res = "got" -> With(M.lent, e.h, e.c)
    [] e.k \in {"drop", "pdrop"} -> Without(M.lent, e.h)
    [] e.k \in {"break", "recon"} -> With(M.lent, e.h, e.c)
    [] OTHER -> M.lent

Upd(M, e) ==
  [M EXCEPT !.open = e.open, !.att = e.att, !.lent = LentAfter(M, e),
            !.broken = IF e.k = "break" THEN @ \cup ({M.lent[e.h]} \ {0}) ELSE @,
            !.refused = @ + (IF e.k = "refuse" THEN 1 ELSE 0),
            !.errs = @ + (IF e.res = "err" THEN 1 ELSE 0)]

Blame(M, e) ==
  LET N == Upd(M, e)
      idle == IdleOf(N)
      quiet == e.woken \cap e.pend = {}
      others == {M.lent[x] : x \in DOMAIN M.lent \ {e.h}} \ {0}
  IN
  \* P02, P05: a connection given out belongs to nobody else and is not broken
  IF e.k \in {"part", "pdrop"}
  THEN (IF e.peak > M.max THEN {"P01"} ELSE {})
       \cup (IF e.res = "got" /\ e.c # 0 /\ e.c \in LentConns(M) THEN {"P02"} ELSE {})
       \cup (IF e.res = "got" /\ e.c # 0 /\ e.c \in N.broken THEN {"P05"} ELSE {})
  ELSE
  \* P01: never more than max connections
  (IF Cardinality(e.open) > M.max \/ e.peak > M.max THEN {"P01"} ELSE {})
  \cup
  \* P02: a connection given out belongs to nobody else; a handle keeps its own
  (IF e.res = "got" /\ e.c # 0 /\ e.c \in LentConns(M) THEN {"P02"} ELSE {})
  \cup
  (IF e.k = "recon" /\ e.c # 0 /\ e.c \in others THEN {"P02"} ELSE {})
  \cup
  (IF e.k = "use" /\ e.c # M.lent[e.h] THEN {"P02"} ELSE {})
  \cup
  \* P03: nobody is left waiting while a connection or capacity is free
  (IF quiet /\ e.pend # {} /\ (idle # {} \/ e.ready # {} \/ (Cardinality(e.open) < M.max /\ e.att = {})) THEN {"P03"} ELSE {})
  \cup
  (IF e.k \in {"settle", "end"} /\ e.pend # {} /\ e.n = 0 THEN {"P03"} ELSE {})
  \cup
  \* ... and an error is reported for a failed attempt only
  (IF N.errs > N.refused THEN {"P03"} ELSE {})
  \cup
  \* P04: the pool counts exactly the connections that are lent
  (IF e.ongoing >= 0 /\ e.k # "get" /\ e.ongoing # Cardinality(LentConns(N)) THEN {"P04"} ELSE {})
  \cup
  (IF e.k = "probe" /\ e.n # M.max THEN {"P04"} ELSE {})
  \cup
  \* P05: at most min idle, healthy kept, idle reused, broken never handed out
  (IF Cardinality(idle) > M.min THEN {"P05"} ELSE {})
  \cup
  (IF e.k = "drop" /\ M.lent[e.h] # 0 /\ M.lent[e.h] \notin M.broken /\ Cardinality(IdleOf(M)) < M.min
      /\ M.lent[e.h] \notin e.open THEN {"P05"} ELSE {})
  \cup
  (IF e.k \in {"get", "poll"} /\ IdleOf(M) # {} /\ ~(e.att \subseteq M.att) THEN {"P05"} ELSE {})
  \cup
  (IF (e.res = "got" \/ e.k = "recon") /\ e.c \in N.broken /\ e.c # 0 THEN {"P05"} ELSE {})
  \cup
  (IF e.k = "drop" /\ M.lent[e.h] \in M.broken /\ M.lent[e.h] \in e.open THEN {"P05"} ELSE {})
=============================================================================
