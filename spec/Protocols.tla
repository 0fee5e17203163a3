------------------------------ MODULE Protocols -----------------------------
(* Configurations, requests and server revisions, starting from a plain one and changing up to   *)
(* MaxChanges things at a time.  Readable says that a request as the protocol lays it out for    *)
(* the revision is read back without loss.                                                       *)
EXTENDS Proto, Json, CSV
CONSTANTS MaxChanges, Revs, OutFile
VARIABLES c, changed
vars == <<c, changed>>
\* a text is a sequence of runs <<length, byte>>
Expand(t) == FlattenSeq([i \in 1..Len(t) |-> [k \in 1..t[i][1] |-> t[i][2]]])
Runs(s) == [i \in 1..Len(s) |-> <<1, s[i]>>]
Texts == {<<>>, Runs(B("x")), Runs(<<39, 34, 92, 10, 32, 0, 96>>), Runs(<<195, 169, 230, 151, 165>>), <<<<127, 97>>>>, <<<<128, 98>>>>, <<<<16383, 99>>, <<2, 100>>>>}
N64 == <<[i \in 1..8 |-> 0], <<127, 0, 0, 0, 0, 0, 0, 0>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<255, 63, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 0, 0, 0, 0>>,
         <<0, 0, 0, 0, 0, 0, 0, 128>>, <<255, 255, 255, 255, 255, 255, 255, 127>>, [i \in 1..8 |-> 255]>>
Nums == {<<N64[1], N64[1], N64[1], N64[1], N64[1]>>, <<N64[2], N64[3], N64[4], N64[5], N64[2]>>, <<N64[6], N64[7], N64[8], N64[6], N64[8]>>, <<N64[8], N64[5], N64[3], N64[8], N64[1]>>}
Zones == {B("UTC"), B("Europe/Moscow"), B("America/Argentina/Buenos_Aires")}
\* settings: name, kind, value, important; the name tells the server's type
Setting(n, k, v, i) == [name |-> B(n), kind |-> k, value |-> v, important |-> i]
SValues == {Setting("s_a", "text", t, i) : t \in Texts \ {<<<<16383, 99>>, <<2, 100>>>>}, i \in BOOLEAN}
UValues == {Setting("u_a", "u64", N64[k], i) : k \in 1..8, i \in BOOLEAN}
IValues == {Setting("u_b", "i64", N64[k], TRUE) : k \in {1, 3, 5, 7}} \cup {Setting("u_b", "i32", N64[k], FALSE) : k \in {1, 2, 4}}
NValues == {Setting("n_a", "i64", v, TRUE) : v \in {N64[8], N64[6], <<0, 255, 255, 255, 255, 255, 255, 255>>}} \cup {Setting("n_b", "i32", N64[8], FALSE)}
BValues == {Setting("b_a", "bool", v, i) : v \in BOOLEAN, i \in BOOLEAN}
FValues == {Setting("f_a", "f64", B(v), i) : v \in {"0", "0.5", "-1.25", "3", "100000", "0.0000001", "1e21", "1e-9", "123456.789"}, i \in BOOLEAN}
\* a setting that may be negative has no type the old layout could carry
Values == SValues \cup UValues \cup IValues \cup BValues \cup FValues \cup (IF c.rev >= TextSettings THEN NValues ELSE {})
Sql(op) == IF op = "insert" THEN Runs(B("t")) ELSE Runs(B("SELECT 1"))
Ops == {"fetch", "stream", "execute", "insert"}
Plain(rev, op) == [rev |-> rev, op |-> op, from |-> 0, comp |-> FALSE, db |-> Runs(B("default")), user |-> Runs(B("u")), pass |-> <<>>, sql |-> Sql(op), id |-> <<>>,
                   tz |-> B("UTC"), name |-> Runs(B("ClickHouse")), num |-> <<N64[2], N64[2], N64[2], N64[2], N64[2]>>, set |-> <<>>]
Init == changed = {} /\ \E rev \in Revs, op \in Ops : c = Plain(rev, op)
Names == {c.set[i].name : i \in 1..Len(c.set)}
Change(k, d) == changed' = changed \cup {k} /\ c' = d /\ d # c
Next == /\ Cardinality(changed) < MaxChanges
        /\ \/ "comp" \notin changed /\ Change("comp", [c EXCEPT !.comp = TRUE])
           \/ "from" \notin changed /\ \E r \in {54032, 54400, 54428, 54429} : Change("from", [c EXCEPT !.from = r])
           \/ "db" \notin changed /\ \E t \in Texts : Change("db", [c EXCEPT !.db = t])
           \/ "user" \notin changed /\ \E t \in Texts : Change("user", [c EXCEPT !.user = t])
           \/ "pass" \notin changed /\ \E t \in Texts : Change("pass", [c EXCEPT !.pass = t])
           \/ "sql" \notin changed /\ \E t \in Texts : Change("sql", [c EXCEPT !.sql = t])
           \/ "id" \notin changed /\ \E t \in Texts : Change("id", [c EXCEPT !.id = t])
           \/ "tz" \notin changed /\ \E t \in Zones : Change("tz", [c EXCEPT !.tz = t])
           \/ "name" \notin changed /\ \E t \in Texts \ {<<<<16383, 99>>, <<2, 100>>>>} : Change("name", [c EXCEPT !.name = t])
           \/ "num" \notin changed /\ \E n \in Nums : Change("num", [c EXCEPT !.num = n])
           \/ "set" \notin changed /\ \E v \in Values : Change("set", [c EXCEPT !.set = <<v>>])
           \/ "set" \in changed /\ "set2" \notin changed /\ \E v \in {x \in Values : x.name \notin Names} : Change("set2", [c EXCEPT !.set = Append(@, v)])
Spec == Init /\ [][Next]_vars

Server == [rev |-> c.rev, name |-> Expand(c.name), tz |-> c.tz, num |-> c.num]
Former == [rev |-> c.from, name |-> B("Former"), tz |-> B("Asia/Tokyo"), num |-> c.num]
\* ------------------------------------------------------------------ the client's side as the protocol has it
Text(v) == CASE v.kind = "text" -> Expand(v.value) [] v.kind = "u64" -> B(UText(v.value)) [] v.kind \in {"i64", "i32"} -> B(IText(v.value))
             [] v.kind = "bool" -> (IF v.value THEN B("1") ELSE B("0")) [] v.kind = "f64" -> v.value
Old(v) == CASE v.kind \in {"u64", "i64", "i32"} -> Var64(v.value) [] v.kind = "bool" -> (IF v.value THEN <<1>> ELSE <<0>>) [] OTHER -> Str(Text(v))
Settings == FlattenSeq([i \in 1..Len(c.set) |-> Str(c.set[i].name) \o (IF c.rev >= TextSettings THEN (IF c.set[i].important THEN <<1>> ELSE <<0>>) \o Str(Text(c.set[i])) ELSE Old(c.set[i]))]) \o <<0>>
Kinds == <<{n \in Names : n[1] \in {98, 117}}, {n \in Names : n[1] \notin {98, 117}}>>
ClientVersion == 54429
Layout == <<1>> \o Str(Expand(c.id)) \o <<1, 0>> \o Str(Expand(c.id)) \o Str(B("h")) \o <<1>> \o Str(B("h")) \o Str(B("h")) \o Str(B("x")) \o <<1, 1>> \o UVar(ClientVersion)
          \o (IF c.rev >= QuotaKey THEN <<0>> ELSE <<>>) \o (IF c.rev >= VersionPatch THEN <<0>> ELSE <<>>) \o Settings \o <<2, IF c.comp THEN 1 ELSE 0>> \o Str(Expand(c.sql))
          \o <<2, 0>> \o (LET e == R!Info \o <<0, 0>> IN IF c.comp THEN Zeros(16) \o FrameBody(130, Literal(e), Len(e)) ELSE e)
Readable == LET q == RdQuery(Layout, Least(c.rev, ClientVersion), Kinds)
            IN q.ok /\ q.id = Expand(c.id) /\ q.sql = Expand(c.sql) /\ q.comp = c.comp /\ Len(q.settings) = Len(c.set)
               /\ \A i \in 1..Len(c.set) : q.settings[i].name = c.set[i].name /\ q.settings[i].important = (c.rev >= TextSettings /\ c.set[i].important)
                     /\ q.settings[i].value = IF q.settings[i].num THEN (IF c.set[i].kind = "bool" THEN LE(IF c.set[i].value THEN 1 ELSE 0, 8) ELSE c.set[i].value) ELSE Text(c.set[i])
Rows == R!Block(<<<<B("t"), <<"DateTime", <<>>>>>>, <<B("n"), <<"UInt8">>>>>>, <<<<<<0, 0, 0, 1>>, <<7>>>>>>)
Pk(o, b) == [o |-> o, b |-> b]
Emit == CSVWrite("%1$s", <<ToJson([c |-> c, zone |-> Zone(Server), hello |-> ServerHello(Server), former |-> IF c.from = 0 THEN <<>> ELSE ServerHello(Former),
          ans |-> IF c.op = "execute" THEN <<Pk(Progress(Server), <<>>), Pk(Profile(Server), <<>>), Pk(Progress(Server) \o <<5>>, <<>>)>>
                  ELSE <<Pk(Progress(Server) \o <<1, 0>>, Rows), Pk(Profile(Server), <<>>), Pk(Progress(Server) \o <<5>>, <<>>)>>,
          head |-> <<Pk(<<1, 0>>, R!Block(<<<<B("n"), <<"UInt8">>>>>>, <<>>))>>,
          last |-> <<Pk(Progress(Server) \o <<5>>, <<>>)>>])>>, OutFile)
=============================================================================
