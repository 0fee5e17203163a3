-------------------------------- MODULE Dsn --------------------------------
(* Connection strings.  A string is a base (scheme, credentials, host, port, database) and      *)
(* parameters appended one by one; its meaning is the documented defaults overridden by what it *)
(* states.  Texts are byte sequences.  Emit hands every string with its meaning to the replayer.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, CSV
CONSTANTS MaxParams, Wide, OutFile
VARIABLES base, params
vars == <<base, params>>

\* ------------------------------------------------------------------ percent coding
Hex == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
hex == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
Unreserved(b) == (b >= 48 /\ b <= 57) \/ (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122) \/ b \in {45, 46, 95}
PctU(b) == <<37, Hex[(b \div 16) + 1], Hex[(b % 16) + 1]>>
PctL(b) == <<37, hex[(b \div 16) + 1], hex[(b % 16) + 1]>>
\* mode 0: encode what must be; 1: everything, lower-case digits
Quote(t, mode) == FlattenSeq([i \in 1..Len(t) |-> IF mode = 1 THEN PctL(t[i]) ELSE IF Unreserved(t[i]) THEN <<t[i]>> ELSE PctU(t[i])])
Digit(b) == IF b >= 97 THEN b - 87 ELSE IF b >= 65 THEN b - 55 ELSE b - 48
Unquote(q) == FoldLeft(LAMBDA a, b : IF a.n = 0 THEN (IF b = 37 THEN [a EXCEPT !.n = 1] ELSE [a EXCEPT !.t = Append(a.t, b)])
                                     ELSE IF a.n = 1 THEN [a EXCEPT !.n = 2, !.h = Digit(b)]
                                     ELSE [t |-> Append(a.t, 16 * a.h + Digit(b)), n |-> 0, h |-> 0], [t |-> <<>>, n |-> 0, h |-> 0], q).t

\* ------------------------------------------------------------------ parameters: key, text, meaning
\* texts as strings where they need no coding
P(k, t, m) == [k |-> k, t |-> t, m |-> m]
Num(k) == {P(k, "0", 0), P(k, "7", 7), P(k, "150", 150)}
Bool(k) == {P(k, "true", TRUE), P(k, "false", FALSE)}
Dur(k) == {P(k, "3s", 3000), P(k, "250ms", 250), P(k, "0s", 0)}
OptDur(k) == Dur(k) \cup {P(k, "none", -1)}
Hosts == {P("alt_hosts", "h2:9001", <<<<"h2", 9001>>>>), P("alt_hosts", "h2:9001,10.0.0.3:9002", <<<<"h2", 9001>>, <<"10.0.0.3", 9002>>>>), P("alt_hosts", "h2,h3:1", <<<<"h2", 9000>>, <<"h3", 1>>>>)}
Known == UNION {Num("pool_min"), Num("pool_max"), Num("send_retries"), Bool("nodelay"), Bool("ping_before_query"),
                OptDur("keepalive"), Dur("retry_timeout"), Dur("ping_timeout"), Dur("connection_timeout"), Dur("query_timeout"), OptDur("insert_timeout"), OptDur("execute_timeout"),
                {P("compression", "none", FALSE), P("compression", "lz4", TRUE)}, Hosts}
\* anything else is a server setting; its value is arbitrary text
Texts == {<<>>, <<49>>, <<97, 32, 98>>, <<61, 38, 35, 47>>, <<37, 52, 49>>, <<195, 169>>, <<43>>}
Names == {<<109, 97, 120, 95, 120>>, <<80, 111, 111, 108, 95, 109, 105, 110>>, <<195, 169, 32>>} \* max_x, Pool_min, ...
Free == {[k |-> "", n |-> n, v |-> v, mode |-> m] : n \in Names, v \in Texts, m \in {0, 1}}
Key(p) == IF p.k = "" THEN <<"", p.n>> ELSE <<p.k, <<>>>>
Keys(ps) == {Key(ps[i]) : i \in 1..Len(ps)}

\* ------------------------------------------------------------------ bases
\* user, pw: "-" when not stated
No == <<0>>
Creds == {<<No, No>>, <<<<117>>, No>>, <<<<117>>, <<>>>>, <<<<117, 64, 47, 58>>, <<112, 37, 63, 35>>>>, <<<<195, 169>>, <<37, 50, 53>>>>}
Ports == {0, 9000, 1, 65535}
HostNames == {"h1", "127.0.0.1", "[::1]", "my-host.example"}
Dbs == {No, <<>>, <<100, 98>>, <<97, 32, 47, 37>>, <<195, 169>>, <<37, 50, 48>>}
Bases == IF Wide THEN [c : Creds, h : HostNames, p : Ports, d : Dbs, mode : {0, 1}]
         ELSE {[c |-> c, h |-> "h1", p |-> 0, d |-> d, mode |-> 0] : c \in {<<No, No>>, <<<<117>>, <<112>>>>}, d \in {No, <<100, 98>>}}
\* what makes a string malformed
BadParams == UNION {
    {<<k, t>> : k \in {"pool_min", "pool_max", "send_retries"}, t \in {"", "-1", "x", "1.5", "7s", "99999999999999999999999", " 1", "0x1"}},
    {<<k, t>> : k \in {"nodelay", "ping_before_query"}, t \in {"", "1", "yes", "TRUE", "none"}},
    {<<k, t>> : k \in {"retry_timeout", "ping_timeout", "connection_timeout", "query_timeout"}, t \in {"", "none", "5", "s", "ms", "5m", "5 s", "-5s", "5S", "1.5s", "5sec", "99999999999999999999s"}},
    {<<k, t>> : k \in {"keepalive", "insert_timeout", "execute_timeout"}, t \in {"", "None", "5", "s", "5m", "5 s", "-5s", "5us", "99999999999999999999ms"}},
    {<<"compression", t>> : t \in {"", "gzip", "LZ4", "true", "zstd", "lz4hc"}},
    {<<"alt_hosts", t>> : t \in {"", "h2:9001,", ",h2:9001", "h2:9001,,h3:1", "h2:x", "h2:99999", "h2:1/db", "h 2:1"}}}
BadBases == {"", "h1:9000", "http://h1:9000", "clickhouse://h1:9000", "tcp:h1", "tcp://", "tcp:///db", "tcp://:9000", "tcp://h1:99999", "tcp://h1:x", "tcp://h1/a/b", "tcp://[::1", "tcp//h1", "tcp://u@/db", "Tcp", "tcp://h1:9000/a/b?pool_min=1", "tcp://h 1"}

Init == base \in Bases /\ params = <<>>
Next == /\ Len(params) < MaxParams
        /\ \E p \in Known \cup Free : Key(p) \notin Keys(params) /\ params' = Append(params, p)
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ meaning
Defaults == [pool_min |-> 10, pool_max |-> 20, send_retries |-> 3, nodelay |-> TRUE, ping_before_query |-> TRUE, keepalive |-> -1,
             retry_timeout |-> 5000, ping_timeout |-> 500, connection_timeout |-> 500, query_timeout |-> 180000, insert_timeout |-> 180000, execute_timeout |-> 180000,
             compression |-> FALSE, alt_hosts |-> <<>>]
Text(s) == s
Meaning(ps) == [k \in DOMAIN Defaults |-> IF \E i \in 1..Len(ps) : ps[i].k = k THEN (LET i == CHOOSE i \in 1..Len(ps) : ps[i].k = k IN ps[i].m) ELSE Defaults[k]]
Settings(ps) == {<<ps[i].n, ps[i].v>> : i \in {j \in 1..Len(ps) : ps[j].k = ""}}
User(b) == IF b.c[1] = No THEN <<100, 101, 102, 97, 117, 108, 116>> ELSE b.c[1]
Pass(b) == IF b.c[2] = No THEN <<>> ELSE b.c[2]
Db(b) == IF b.d \in {No, <<>>} THEN <<100, 101, 102, 97, 117, 108, 116>> ELSE b.d
Port(b) == IF b.p = 0 THEN 9000 ELSE b.p

\* what a string states depends neither on the order of its parameters nor on how it is quoted
OrderFree == Meaning(params) = Meaning(Reverse(params)) /\ Settings(params) = Settings(Reverse(params))
QuoteFree == \A t \in Texts \cup Names \cup Dbs \cup UNION {{c[1], c[2]} : c \in Creds} : \A m \in {0, 1} : Unquote(Quote(t, m)) = t
\* the replayer joins the pieces: strings as they are, byte sequences as bytes
Record == [b |-> [user |-> IF base.c[1] = No THEN <<>> ELSE <<Quote(base.c[1], base.mode)>>, pw |-> IF base.c[2] = No THEN <<>> ELSE <<Quote(base.c[2], base.mode)>>,
                  host |-> base.h, port |-> base.p, db |-> IF base.d = No THEN <<>> ELSE <<Quote(base.d, base.mode)>>],
           ps |-> [i \in 1..Len(params) |-> IF params[i].k = "" THEN <<Quote(params[i].n, params[i].mode), Quote(params[i].v, params[i].mode)>> ELSE <<params[i].k, params[i].t>>],
           o |-> Meaning(params), set |-> Settings(params), user |-> User(base), pw |-> Pass(base), db |-> Db(base), host |-> base.h, port |-> Port(base)]
Emit == CSVWrite("%1$s", <<ToJson(Record)>>, OutFile)
First == base = (CHOOSE b \in Bases : TRUE) /\ params = <<>>
EmitBad == First => /\ \A x \in BadParams : CSVWrite("%1$s", <<ToJson([bad |-> "tcp://h1:9000/db?" \o x[1] \o "=" \o x[2], why |-> x])>>, OutFile)
                                             /\ CSVWrite("%1$s", <<ToJson([bad |-> "tcp://h1:9000?max_x=1&" \o x[1] \o "=" \o x[2] \o "&nodelay=true", why |-> x])>>, OutFile)
                    /\ \A x \in BadBases : CSVWrite("%1$s", <<ToJson([bad |-> x, why |-> <<"base", x>>])>>, OutFile)
=============================================================================
