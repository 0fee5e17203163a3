------------------------------- MODULE Timeout ------------------------------
(* Limits on operations, as a timed automaton: the server needs a given time at each step (or    *)
(* stalls), the limits in force are those of the operation and of the step within it.  Limits    *)
(* are even numbers of ticks and delays odd, so nothing happens at the same time.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS Rich, OutFile
Never == 99
Horizon == 16
\* 0: no limit
Configs == << [conn |-> 2, ping |-> 4, query |-> 6, exec |-> 8, ins |-> 10], [conn |-> 10, ping |-> 8, query |-> 6, exec |-> 4, ins |-> 2],
              [conn |-> 6, ping |-> 2, query |-> 10, exec |-> 0, ins |-> 4], [conn |-> 4, ping |-> 6, query |-> 2, exec |-> 10, ins |-> 0], [conn |-> 8, ping |-> 10, query |-> 4, exec |-> 2, ins |-> 6] >>
VARIABLES cfg, op, chk, mode, dly, now, step, since, res
\* cfg: the configuration; op; chk: the connection is checked first; mode: what a stalling server does;
\* dly: the delays of hello (of a replacement), check ping, first and second part of the answer
\* now, step, since: the clock, the current step, when it began; res: the result
vars == <<cfg, op, chk, mode, dly, now, step, since, res>>
D == {1, 3, 5, 7, 9, 11, Never}
Q == {1, 5, 9, Never}
Steps == CASE op = "connect" -> <<"hello">>
           [] op = "ping" -> <<"ping">>
           [] OTHER -> (IF chk # "no" THEN <<"check">> ELSE <<>>) \o (IF chk = "replace" THEN <<"hello">> ELSE <<>>) \o <<"first", "second">>
Delay(s) == CASE s = "hello" -> dly[1] [] s \in {"ping", "check"} -> dly[2] [] s = "first" -> dly[3] [] s = "second" -> dly[4]
C == Configs[cfg]
Limit == CASE op = "connect" -> C.conn [] op = "ping" -> C.ping [] op = "fetch" -> C.query [] op = "execute" -> C.exec [] op = "insert" -> C.ins
Cur == Steps[step]
Inner == CASE Cur = "hello" /\ op # "connect" -> C.conn [] Cur = "check" -> C.ping [] OTHER -> 0
Init == /\ cfg \in 1..Len(Configs) /\ now = 0 /\ step = 1 /\ since = 0 /\ res = ""
        /\ \/ op = "connect" /\ chk = "no" /\ \E d \in D : dly = <<d, 0, 0, 0>> /\ mode \in (IF d = Never THEN {"quiet", "half", "syn"} ELSE {"quiet"})
           \/ op = "ping" /\ chk = "no" /\ \E d \in D : dly = <<0, d, 0, 0>> /\ mode = "quiet"
           \/ op \in {"fetch", "execute", "insert"} /\ mode \in {"quiet", "half", "drip"}
              /\ \/ chk = "no" /\ \E a, b \in D \cup {0} : dly = <<0, 0, a, b>> /\ (a = Never => b = 0) /\ (mode # "quiet" => Never \in {a, b} \/ (Rich /\ a > 0))
                 \/ chk = "yes" /\ \E p, a \in (IF Rich THEN D \cup {0} ELSE Q) : dly = <<0, p, a, 0>> /\ mode = "quiet"
                 \* the check finds the connection dead; the replacement is checked too, without delay
                 \/ chk = "replace" /\ \E h, a \in (IF Rich THEN D \cup {0} ELSE {1, 3, 5, 9}) : h < C.conn /\ dly = <<h, Never, a, 0>> /\ mode = "quiet"
Due == since + Delay(Cur)
Outer == IF Limit = 0 THEN Horizon ELSE Limit
InnerEnd == IF Inner = 0 THEN Horizon ELSE since + Inner
Least(a, b) == IF a < b THEN a ELSE b
Next ==
    /\ res = "" /\ UNCHANGED <<cfg, op, chk, mode, dly>>
    /\ \/ \* the server acts in time
          /\ Due < Outer /\ Due < InnerEnd /\ Due < Horizon
          /\ now' = Due /\ since' = Due
          /\ IF step = Len(Steps) THEN res' = "ok" /\ UNCHANGED step ELSE step' = step + 1 /\ UNCHANGED res
       \/ \* the step's own limit ends it, not the operation's: a dead connection is replaced, if it may be
          /\ InnerEnd <= Due /\ InnerEnd < Outer /\ InnerEnd < Horizon
          /\ now' = InnerEnd
          /\ IF Cur = "check" /\ chk = "replace" THEN step' = step + 1 /\ since' = InnerEnd /\ UNCHANGED res ELSE res' = "timeout" /\ UNCHANGED <<step, since>>
       \/ \* the operation's limit
          /\ Outer <= Due /\ Outer <= InnerEnd
          /\ now' = Outer /\ res' = (IF Outer = Horizon THEN "pending" ELSE "timeout") /\ UNCHANGED <<step, since>>
Spec == Init /\ [][Next]_vars
Ended == res # ""
\* no operation outlasts its limit; it times out at its own limit or because the check does; without a limit it never does
InTime == Ended /\ Limit # 0 => now <= Limit
OwnLimit == res = "timeout" => now = Limit \/ (chk # "no" /\ Cur \in {"check", "hello"})
OffNever == Limit = 0 /\ chk = "no" => res # "timeout"
Success == res = "ok" => now = IF chk = "replace" THEN C.ping + dly[1] + dly[3] + dly[4] ELSE dly[1] + dly[2] + dly[3] + dly[4]
Exact == Ended /\ chk = "no" /\ Limit # 0 => (res = "ok") = (dly[1] + dly[2] + dly[3] + dly[4] < Limit)
Emit == Ended => CSVWrite("%1$s", <<ToJson([cfg |-> C, op |-> op, chk |-> chk, mode |-> mode, d |-> dly, res |-> res, at |-> now])>>, OutFile)
=============================================================================
