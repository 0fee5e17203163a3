-------------------------------- MODULE Proto -------------------------------
(* The native protocol by revision: what a server announces and reports, and how it reads a      *)
(* client's hello and query.  Both sides use what the older of the two knows.                    *)
EXTENDS Lz4
R == INSTANCE Response
B(s) == R!TN!B(s)
Str(s) == UVar(Len(s)) \o s
TotalRows == 51554
ClientInfo == 54032
TimeZone == 54058
QuotaKey == 54060
DisplayName == 54372
VersionPatch == 54401
WriteInfo == 54420
TextSettings == 54429
Secret == 54441
Least(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------------ 64-bit numbers: 8 bytes, least first
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(le, k) == (le[(k \div 8) + 1] \div Pow2[(k % 8) + 1]) % 2
Seven(le, g) == FoldLeft(LAMBDA a, j : IF 7 * g + j - 1 < 64 THEN a + Pow2[j] * Bit(le, 7 * g + j - 1) ELSE a, 0, <<1, 2, 3, 4, 5, 6, 7>>)
Var64(le) == LET top == {g \in 1..9 : Seven(le, g) # 0}
                 n == IF top = {} THEN 0 ELSE CHOOSE g \in top : \A h \in top : h <= g
             IN [g \in 1..(n + 1) |-> Seven(le, g - 1) + (IF g <= n THEN 128 ELSE 0)]
RdVar64(b, i) == LET ends == {j \in i..Least(i + 9, Len(b)) : b[j] < 128}
                 IN IF ends = {} THEN Bad
                    ELSE LET e == CHOOSE j \in ends : \A k \in ends : j <= k
                             BitAt(k) == IF k \div 7 > e - i \/ k > 63 THEN 0 ELSE (b[i + k \div 7] \div Pow2[(k % 7) + 1]) % 2
                         IN Ok([p \in 1..8 |-> FoldLeft(LAMBDA a, j : a + Pow2[j] * BitAt(8 * (p - 1) + j - 1), 0, Ints(8))], e + 1)

\* ------------------------------------------------------------------ what the server sends
\* s: rev, name, tz (bytes), num (64-bit numbers: a, b, ..)
ServerHello(s) == <<0>> \o Str(s.name) \o Var64(s.num[1]) \o Var64(s.num[2]) \o UVar(s.rev)
                  \o (IF s.rev >= TimeZone THEN Str(s.tz) ELSE <<>>) \o (IF s.rev >= DisplayName THEN Str(s.name) ELSE <<>>)
                  \o (IF s.rev >= VersionPatch THEN Var64(s.num[3]) ELSE <<>>)
Zone(s) == IF s.rev >= TimeZone THEN s.tz ELSE B("UTC")
Progress(s) == <<3>> \o Var64(s.num[1]) \o Var64(s.num[2]) \o (IF s.rev >= TotalRows THEN Var64(s.num[3]) ELSE <<>>)
               \o (IF s.rev >= WriteInfo THEN Var64(s.num[4]) \o Var64(s.num[5]) ELSE <<>>)
Profile(s) == <<6>> \o Var64(s.num[1]) \o Var64(s.num[2]) \o Var64(s.num[3]) \o <<1>> \o Var64(s.num[4]) \o <<0>>

\* ------------------------------------------------------------------ how the server reads
Field(k, b, i) == CASE k = "str" -> R!RdStr(b, i)
                    [] k = "var" -> RdVar64(b, i)
                    [] k = "byte" -> IF i > Len(b) THEN Bad ELSE Ok(b[i], i + 1)
Fields(ks, b, i) == FoldLeft(LAMBDA a, k : IF ~a.ok THEN Bad ELSE LET f == Field(k, b, a.i) IN IF f.ok THEN Ok(Append(a.v, f.v), f.i) ELSE Bad, Ok(<<>>, i), ks)
Num(le) == IF FitsSmall(le) THEN Small(le) ELSE -1
RdHello(b) == LET f == Fields(<<"var", "str", "var", "var", "var", "str", "str", "str">>, b, 1)
              IN IF f.ok /\ f.i = Len(b) + 1 /\ Num(f.v[1]) = 0 THEN [ok |-> TRUE, rev |-> Num(f.v[5]), db |-> f.v[6], user |-> f.v[7], pass |-> f.v[8]] ELSE [ok |-> FALSE]
\* kinds: the names of settings the server stores as numbers, and those of the others
RECURSIVE RdSettings(_, _, _, _, _)
RdSettings(b, i, text, kinds, acc) ==
    LET n == R!RdStr(b, i)
    IN IF ~n.ok THEN Bad ELSE IF n.v = <<>> THEN Ok(acc, n.i)
       ELSE LET f == IF text THEN Fields(<<"var", "str">>, b, n.i) ELSE Fields(<<IF n.v \in kinds[1] THEN "var" ELSE "str">>, b, n.i)
            IN IF ~f.ok \/ n.v \notin kinds[1] \cup kinds[2] THEN Bad
               ELSE RdSettings(b, f.i, text, kinds, Append(acc, [name |-> n.v, value |-> f.v[Len(f.v)], important |-> text /\ Num(f.v[1]) % 2 = 1, num |-> ~text /\ n.v \in kinds[1]]))
EmptyBlock(b, i) == LET f == R!RdInfo(b, i) IN f.ok /\ SubSeq(b, f.i, Len(b)) = <<0, 0>>
Tail_(b, i, comp) == IF comp THEN i + 15 <= Len(b) /\ LET c == Content(SubSeq(b, i + 16, Len(b))) IN c.ok /\ EmptyBlock(c.v, 1)
                     ELSE EmptyBlock(b, i)
No == [ok |-> FALSE]
RdQuery(b, rev, kinds) ==
    LET f == Fields(<<"var", "str">> \o (IF rev >= ClientInfo THEN <<"byte", "str", "str", "str", "byte", "str", "str", "str", "var", "var", "var">> ELSE <<>>)
                    \o (IF rev >= QuotaKey THEN <<"str">> ELSE <<>>) \o (IF rev >= VersionPatch THEN <<"var">> ELSE <<>>), b, 1)
    IN IF ~f.ok THEN No
       ELSE LET s == RdSettings(b, f.i, rev >= TextSettings, kinds, <<>>)
            IN IF ~s.ok THEN No
               ELSE LET g == Fields((IF rev >= Secret THEN <<"str">> ELSE <<>>) \o <<"var", "var", "str", "var", "str">>, b, s.i)
                        n == IF g.ok THEN Len(g.v) ELSE 0
                    IN IF ~g.ok THEN No
                       ELSE IF Num(f.v[1]) # 1 \/ f.v[3] # 1 \/ f.v[7] # 1 \/ Num(g.v[n - 4]) # 2 \/ Num(g.v[n - 3]) \notin {0, 1} \/ Num(g.v[n - 1]) # 2 \/ ~Tail_(b, g.i, Num(g.v[n - 3]) = 1) THEN No
                       ELSE [ok |-> TRUE, id |-> f.v[2], initial |-> f.v[5], rev |-> Num(f.v[13]), settings |-> s.v, comp |-> Num(g.v[n - 3]) = 1, sql |-> g.v[n - 2]]

\* ------------------------------------------------------------------ numbers as text
Digits(s) == \A i \in 1..Len(s) : s[i] \in 48..57
Value10(s) == FoldLeft(LAMBDA a, c : IF a > 100000 THEN a ELSE 10 * a + c - 48, 0, s)
Find(s, cs) == LET ps == {i \in 1..Len(s) : s[i] \in cs} IN IF ps = {} THEN Len(s) + 1 ELSE CHOOSE i \in ps : \A j \in ps : i <= j
Real(t) == \* <<is it one, negative, digits, exponent>>, without needless zeros
    LET neg == t # <<>> /\ t[1] = 45
        u == IF neg THEN Tail(t) ELSE t
        e == Find(u, {101, 69})
        m == SubSeq(u, 1, e - 1)
        x == SubSeq(u, e + 1, Len(u))
        xn == x # <<>> /\ x[1] = 45
        xd == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
        p == Find(m, {46})
        ip == SubSeq(m, 1, p - 1)
        fp == SubSeq(m, p + 1, Len(m))
        ds == ip \o fp
        nz == {i \in 1..Len(ds) : ds[i] # 48}
    IN IF ds = <<>> \/ ~Digits(ds) \/ ~Digits(xd) \/ (e <= Len(u) /\ xd = <<>>) THEN <<FALSE>>
       ELSE IF nz = {} THEN <<TRUE, FALSE, <<>>, 0>>
       ELSE LET a == CHOOSE i \in nz : \A j \in nz : i <= j
                z == CHOOSE i \in nz : \A j \in nz : j <= i
            IN <<TRUE, neg, SubSeq(ds, a, z), (IF xn THEN 0 - Value10(xd) ELSE Value10(xd)) - Len(fp) + Len(ds) - z>>
=============================================================================
