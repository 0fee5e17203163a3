-------------------------------- MODULE Hosts --------------------------------
(* Rotation of connection attempts over the configured hosts (src/pool/mod.rs  *)
(* get_addr, Client::open).  A history is a host list with a condition per     *)
(* host, a pool configuration and a sequence of acquisitions, drops and        *)
(* reconnections; attempt number k goes to host k mod n, whatever became of    *)
(* the earlier ones, whoever makes it and however many there were.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS MaxHosts, Len_, OutFile
VARIABLES kinds,  \* condition of each host: up, refuse (hangs up), dead (nobody listens), mute (never answers)
          att,    \* attempts made so far
          cfg,    \* [min, max, warm]: pool_min, pool_max, and attempts made before the history
          idle,   \* idle connections (hosts they lead to)
          kept,   \* handles held by the user (hosts they lead to)
          hist
vars == <<kinds, att, cfg, idle, kept, hist>>
Kinds == {"up", "refuse", "dead", "mute"}
n == Len(kinds)
Mutes == Cardinality({i \in DOMAIN kinds : kinds[i] = "mute"})
Cfgs == {[min |-> a, max |-> b, warm |-> w] : a \in {0, 1}, b \in {1, 2, 20}, w \in {0, 5, 12, 30, 253, 65533}}
\* the configurations that can be told apart: attempts before the history need a pool that keeps nothing,
\* a small pool matters most after more attempts than it has places
Useful(c) == \/ c.warm = 0 /\ c.max # 1
             \/ c.warm \in 1..12 /\ c.min = 0 /\ Mutes = 0
             \* counters of few bits show after many attempts: one list of hosts is enough for them
             \/ c.warm > 12 /\ c.min = 0 /\ c.max = 20 /\ kinds = <<"up", "dead", "up">>
Init == /\ \E m \in 1..MaxHosts : kinds \in [1..m -> Kinds]
        /\ Mutes <= 1
        /\ cfg \in Cfgs /\ Useful(cfg)
        /\ att = cfg.warm /\ idle = <<>> /\ kept = <<>> /\ hist = <<>>
HostOf(k) == (k % n) + 1
Log(op, keep, tried, host, ok) == hist' = Append(hist, [op |-> op, keep |-> keep, tried |-> tried, host |-> host, ok |-> ok])
\* acquire a handle; then keep it or drop it
Get(keep) ==
  LET reuse == idle # <<>>
      h == IF reuse THEN Head(idle) ELSE HostOf(att)
      ok == reuse \/ kinds[h] = "up"
  IN /\ Len(kept) < cfg.max
     /\ ~keep => ok            \* keep matters only after a success
     /\ att' = IF reuse THEN att ELSE att + 1
     /\ idle' = IF ok /\ ~keep /\ cfg.min = 1 THEN <<h>> ELSE <<>>
     /\ kept' = IF ok /\ keep THEN Append(kept, h) ELSE kept
     /\ Log("get", keep, IF reuse THEN <<>> ELSE <<h>>, h, ok)
     /\ UNCHANGED <<kinds, cfg>>
\* drop the handle held longest
Drop ==
  /\ kept # <<>>
  /\ idle' = IF cfg.min = 1 /\ idle = <<>> THEN <<Head(kept)>> ELSE idle
  /\ kept' = Tail(kept)
  /\ Log("drop", FALSE, <<>>, Head(kept), TRUE)
  /\ UNCHANGED <<kinds, att, cfg>>
\* the connection of the handle held longest dies, and the handle finds itself another one: at most
\* 1 + send_retries (1) attempts, the idle connection before any attempt
Recon ==
  LET reuse == idle # <<>>
      up1 == kinds[HostOf(att)] = "up"
      up2 == kinds[HostOf(att + 1)] = "up"
      tries == IF reuse THEN 0 ELSE IF up1 THEN 1 ELSE 2
      ok == reuse \/ up1 \/ up2
      h == IF reuse THEN Head(idle) ELSE HostOf(att + tries - 1)
  IN /\ kept # <<>> /\ cfg.warm = 0 /\ Mutes = 0
     /\ \A i \in DOMAIN hist : hist[i].op # "recon"
     /\ att' = att + tries
     /\ idle' = IF reuse THEN <<>> ELSE idle
     /\ kept' = IF ok THEN <<h>> \o Tail(kept) ELSE Tail(kept)
     /\ Log("recon", FALSE, [i \in 1..tries |-> HostOf(att + i - 1)], h, ok)
     /\ UNCHANGED <<kinds, cfg>>
Next == Len(hist) < Len_ /\ ((\E k \in BOOLEAN : Get(k)) \/ Drop \/ Recon)
Spec == Init /\ [][Next]_vars
\* any n consecutive attempts reach every host exactly once
\* of the attempts before the history the last few
Shown == IF cfg.warm < 20 THEN cfg.warm ELSE 20
RECURSIVE Tried(_)
Tried(k) == IF k = 0 THEN [i \in 1..Shown |-> HostOf(cfg.warm - Shown + i - 1)] ELSE Tried(k - 1) \o hist[k].tried
All == Tried(Len(hist))
Fair == \A i \in 1..Len(All) : i + n - 1 <= Len(All) => {All[j] : j \in i..i+n-1} = 1..n
InOrder == \A i \in 1..Len(All) : All[i] = HostOf(cfg.warm - Shown + i - 1)
Bounded == Len(kept) <= cfg.max /\ Len(idle) <= cfg.min /\ Len(kept) + Len(idle) <= cfg.max
\* a history that ends in a drop shows nothing at the end
Emit == IF OutFile # "" /\ Len(hist) = Len_ /\ hist[Len_].op # "drop"
        THEN CSVWrite("%1$s", <<ToJson([kinds |-> kinds, min |-> cfg.min, max |-> cfg.max, warm |-> cfg.warm, steps |-> hist])>>, OutFile) ELSE TRUE
=============================================================================
