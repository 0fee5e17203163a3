----------------------------- MODULE ProtoTrace -----------------------------
(* Reads the hello and the query the real client sent as a server of the revision would.         *)
EXTENDS Proto, Json, CSV
CONSTANTS TraceFile, OutFile, Chunk
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in {k \in 1..Len(Trace) : k % Chunk = 1 \/ Chunk = 1}
Next == l < Len(Trace) /\ l % Chunk # 0 /\ l' = l + 1
Spec == Init /\ [][Next]_l
Expand(t) == FlattenSeq([i \in 1..Len(t) |-> [k \in 1..t[i][1] |-> t[i][2]]])
Short(x) == LET s == ToString(x) IN IF Len(s) > 300 THEN SubSeq(s, 1, 300) ELSE s
Truth == {B("1"), B("true"), B("True"), B("TRUE")}
False_ == {B("0"), B("false"), B("False"), B("FALSE")}
\* does the value v of a setting, as read, say what was configured?
Says(v, s) ==
    IF s.num THEN s.value = (IF v.kind = "bool" THEN LE(IF v.value THEN 1 ELSE 0, 8) ELSE v.value)
    ELSE CASE v.kind = "text" -> s.value = Expand(v.value)
           [] v.kind = "u64" -> s.value = B(UText(v.value))
           [] v.kind \in {"i64", "i32"} -> s.value = B(IText(v.value))
           [] v.kind = "bool" -> s.value \in (IF v.value THEN Truth ELSE False_)
           [] v.kind = "f64" -> Real(s.value)[1] /\ Real(s.value) = Real(v.value)
Sql(c) == IF c.op = "insert" THEN B("INSERT INTO ") \o Expand(c.sql) \o B(" (`n`) VALUES") ELSE Expand(c.sql)
Verdict(r) ==
    LET c == r.c
        h == RdHello(r.hello)
        names == {c.set[i].name : i \in 1..Len(c.set)}
        Kinds == <<{n \in names : n[1] \in {98, 117}}, {n \in names : n[1] \notin {98, 117}}>>
    IN IF ~h.ok THEN "the hello cannot be read"
       ELSE IF h.db # Expand(c.db) \/ h.user # Expand(c.user) \/ h.pass # Expand(c.pass) THEN "the hello says " \o Short(h)
       ELSE LET rev == Least(c.rev, h.rev)
                q == RdQuery(r.query, rev, Kinds)
            IN IF ~q.ok THEN "the query cannot be read: " \o Short(r.query)
               ELSE IF q.rev # h.rev THEN "the query states another client revision than the hello"
               ELSE IF q.sql # Sql(c) THEN "the query reads " \o Short(q.sql)
               ELSE IF q.id # Expand(c.id) THEN "the query's id reads " \o Short(q.id)
               ELSE IF q.initial \notin {<<>>, Expand(c.id)} THEN "the query's initial id reads " \o Short(q.initial)
               ELSE IF q.comp # c.comp THEN "another compression"
               ELSE IF Len(q.settings) # Len(c.set) THEN "settings read " \o Short(q.settings)
               ELSE IF \E i \in 1..Len(c.set) : ~\E j \in 1..Len(c.set) : q.settings[j].name = c.set[i].name /\ Says(c.set[i], q.settings[j]) /\ (rev >= TextSettings => q.settings[j].important = c.set[i].important)
                    THEN "settings read " \o Short(q.settings)
               ELSE IF r.out # "ok" THEN "the answer was not understood: " \o r.out
               ELSE IF r.more # 0 THEN "unexpected bytes after the query"
               ELSE IF c.op \in {"fetch", "stream"} /\ r.tz # r.zone THEN "date-times read in zone " \o Short(r.tz)
               ELSE ""
Emit == LET v == Verdict(Trace[l]) IN IF v = "" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, why |-> v])>>, OutFile)
=============================================================================
