-------------------------------- MODULE Retry --------------------------------
(* How an operation finds itself a working connection (src/retry_guard.rs).  The handle's own   *)
(* connection, the idle connections of its pool and every connection made on the way meet some  *)
(* fate; the fates are chosen when they matter.  Every behaviour ends with the statement sent   *)
(* to a working connection or with an error; the replayer stages the same fates.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV
CONSTANTS MaxRetries, MaxIdle, Kinds, OutFile
VARIABLES r,       \* send_retries
          src,     \* "pool", or "single": a handle without a pool
          op,
          cur,     \* fate of the handle's own connection
          idle,    \* fates of the pool's idle connections, longest idle first
          news,    \* fates of the connections made so far
          now,     \* fate of the connection at hand, "none" if there is none
          att,     \* attempts to replace it
          asked,   \* pings sent on connections, in order: how each was answered
          taken,   \* idle connections used up
          end      \* "", "ok" or "err"
vars == <<r, src, op, cur, idle, news, now, att, asked, taken, end>>
Slow(f) == f = "mute"
\* of an established connection: works, was closed, answers the ping with an exception, nonsense, by hanging up, or not at all
Old == {"up", "closed", "exc", "bad", "drop"} \cup Kinds
\* of a new one: also turned away at once, or greeted with an exception, nonsense
New == {"up", "refuse", "helloexc", "hellobad", "exc", "drop"} \cup Kinds
Ops == {"fetch", "exec", "insert", "stream", "drop1"}
Init == /\ r \in 0..MaxRetries /\ src \in {"pool", "single"} /\ op \in Ops
        /\ (r > 1 => op \in {"fetch", "insert"})
        /\ cur \in Old
        /\ (Slow(cur) => r <= 1 /\ op = "fetch")
        /\ idle \in UNION {[1..k -> {"up", "closed", "drop", "exc"}] : k \in 0..MaxIdle}
        /\ (src = "single" => idle = <<>>) /\ (cur = "up" => idle = <<>>)
        /\ news = <<>> /\ now = cur /\ att = 0 /\ asked = <<>> /\ taken = 0 /\ end = ""
Established(f) == f \notin {"refuse", "helloexc", "hellobad"}
\* the connection at hand is asked whether it works
Check ==
  /\ end = "" /\ now # "none"
  /\ asked' = Append(asked, now)
  /\ IF now = "up" THEN end' = "ok" /\ now' = now
     ELSE IF att >= r THEN end' = "err" /\ now' = "none"
     ELSE end' = "" /\ now' = "none"
  /\ UNCHANGED <<r, src, op, cur, idle, news, att, taken>>
\* another one takes its place: an idle one, or a new one
Replace ==
  /\ end = "" /\ now = "none"
  /\ IF taken < Len(idle)
     THEN now' = idle[taken + 1] /\ taken' = taken + 1 /\ att' = att + 1 /\ UNCHANGED <<news, end>>
     ELSE \E f \in New :
          /\ news' = Append(news, f)
          /\ Slow(f) => (r <= 1 /\ op = "fetch" /\ ~\E i \in DOMAIN news : Slow(news[i]))
          /\ IF Established(f) THEN now' = f /\ att' = att + 1 /\ end' = ""
             ELSE /\ now' = "none" /\ att' = att + 1
                  /\ end' = IF att >= r THEN "err" ELSE ""
          /\ UNCHANGED taken
  /\ UNCHANGED <<r, src, op, cur, idle, asked>>
Next == Check \/ Replace
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ------------------------------------------------------------------ what is promised
\* the statement goes out only to a connection that has just answered the ping
Verified == end = "ok" => now = "up" /\ asked[Len(asked)] = "up"
\* no connection is asked twice, and none after one that works
Once == \A i \in DOMAIN asked : asked[i] = "up" => i = Len(asked)
\* the number of attempts is limited
Limited == Len(news) + taken <= r + 1
\* an error means that all attempts were used up, and none of them found a working connection
Tried == end = "err" => att >= r /\ \A i \in DOMAIN asked : asked[i] # "up"
\* a working connection within reach is found: the handle's own, or one of the next r
Reach == end = "err" => ~\E k \in 1..r : k <= Len(news) + taken /\ (IF k <= taken THEN idle[k] ELSE news[k - taken]) = "up"
Ends == <>(end # "")
Emit == IF OutFile # "" /\ end # "" THEN CSVWrite("%1$s", <<ToJson([r |-> r, src |-> src, op |-> op, cur |-> cur, idle |-> idle, news |-> news, end |-> end, taken |-> taken])>>, OutFile) ELSE TRUE
=============================================================================
