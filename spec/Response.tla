------------------------------ MODULE Response ------------------------------
(* The server's answer to a request as bytes: how packets are written and what an arbitrary      *)
(* byte sequence means as an answer.  Operators only; Answers generates, RespTrace judges.       *)
EXTENDS Wire
TN == INSTANCE TypeName

\* ------------------------------------------------------------------ writing
Str(s) == UVar(Len(s)) \o s
Info == <<1, 0, 2, 255, 255, 255, 255, 0>>
Lay0 == [g |-> FALSE, ix |-> 0, d |-> TRUE, u |-> TRUE]
\* cols: sequence of <<name bytes, type>>; rows: sequence of tuples of values
Block(cols, rows) ==
    Info \o UVar(Len(cols)) \o UVar(Len(rows))
    \o FlattenSeq([c \in 1..Len(cols) |-> Str(cols[c][1]) \o Str(TN!Spell(cols[c][2])) \o Enc(cols[c][2], [r \in 1..Len(rows) |-> rows[r][c]], Lay0)])
Progress(n) == <<3>> \o UVar(n) \o UVar(8 * n) \o UVar(1000) \o UVar(1) \o UVar(300)
Profile(n) == <<6>> \o UVar(n) \o UVar(2) \o UVar(70000) \o <<0>> \o UVar(n) \o <<1>>
Exception(code, name, msg, stack) == <<2>> \o LE(code, 4) \o Str(name) \o Str(msg) \o Str(stack) \o <<0>>
DataHead == <<1, 0>>
Eos == <<5>>
Pong == <<4>>

\* ------------------------------------------------------------------ reading
\* what a user sees of a value
RECURSIVE Cell(_, _), Known(_)
Cell(T, v) == CASE T[1] \in {"String", "FixedString"} -> <<"String", v>>
                [] T[1] = "Nullable" -> IF v = <<>> THEN <<"Null">> ELSE <<"Some", Cell(T[2], v[1])>>
                [] T[1] = "Array" -> <<"Array", [i \in 1..Len(v) |-> Cell(T[2], v[i])]>>
                [] T[1] = "LC" -> Cell(T[2], v)
                [] OTHER -> <<T[1], v>>
\* types whose cells Cell describes
Known(T) == T[1] \in TN!Ints \cup {"String", "FixedString", "Float32", "Float64", "Date", "IPv4", "IPv6", "UUID", "Bool"} \/ (T[1] \in {"Nullable", "Array", "LC"} /\ Known(T[2]))
\* types with redundant bytes in their encoding, about which the format leaves the reader some choice
RECURSIVE Loose(_)
Loose(T) == T[1] \in {"Bool", "Nullable", "LC"} \/ (T[1] = "Array" /\ Loose(T[2]))

Stop(k, i) == [k |-> k, i |-> i, rows |-> <<>>, shape |-> <<>>, exc |-> <<>>]
RdStr(b, i) == LET l == RdUVar(b, i, 0) IN IF ~l.ok \/ l.i + l.v - 1 > Len(b) THEN Bad ELSE Ok(Slice(b, l.i, l.v), l.i + l.v)
Ascii(s) == \A i \in 1..Len(s) : s[i] < 128
\* n numbers of any size
SkipNums(b, i, n) ==
    FoldLeft(LAMBDA a, k : IF ~a.ok THEN a
                           ELSE LET e == {j \in a.i..(a.i + 9) : j <= Len(b) /\ b[j] < 128}
                                IN IF e = {} THEN Bad ELSE Ok(<<>>, 1 + (CHOOSE j \in e : \A m \in e : j <= m)), Ok(<<>>, i), Ints(n))
RECURSIVE RdInfo(_, _)
RdInfo(b, i) == IF i > Len(b) THEN Bad
                ELSE CASE b[i] = 0 -> Ok(<<>>, i + 1) [] b[i] = 1 -> RdInfo(b, i + 2) [] b[i] = 2 -> RdInfo(b, i + 5) [] OTHER -> Bad
\* one column after another; st is "ok", "bad" or "free"
RdCol(a, b, n) ==
    IF a.st # "ok" THEN a
    ELSE LET nm == RdStr(b, a.i)
             ty == IF nm.ok THEN RdStr(b, nm.i) ELSE Bad
             x == IF ty.ok THEN TN!Parse(ty.v) ELSE TN!No
         IN IF ~nm.ok THEN [a EXCEPT !.st = "bad"]
            ELSE IF ~Ascii(nm.v) THEN [a EXCEPT !.st = "free"]
            ELSE IF ~ty.ok THEN [a EXCEPT !.st = "bad"]
            ELSE IF ~Ascii(ty.v) THEN [a EXCEPT !.st = "free"]
            ELSE IF ~x.ok THEN [a EXCEPT !.st = "bad"]
            ELSE IF ~TN!Canonical(ty.v) \/ ~Known(x.t) THEN [a EXCEPT !.st = "free"]
            ELSE IF n = 0 THEN [a EXCEPT !.i = ty.i, !.cols = Append(@, <<nm.v, x.t, <<>>>>)]
            ELSE IF x.t[1] = "FixedString" /\ x.t[2] > Len(b) THEN [a EXCEPT !.st = "bad"]
            ELSE LET p == DecPrefix(x.t, b, ty.i)
                     r == IF p.ok THEN DecBody(x.t, n, b, p.i) ELSE Bad
                 IN IF ~r.ok THEN [a EXCEPT !.st = IF Loose(x.t) THEN "loose" ELSE "bad"]
                    ELSE IF x.t[1] = "Bool" /\ \E k \in 1..n : r.v[k][1] > 1 THEN [a EXCEPT !.st = "free"]
                    ELSE [a EXCEPT !.i = r.i, !.cols = Append(@, <<nm.v, x.t, r.v>>)]
RdBlock(b, i) ==
    LET f == RdInfo(b, i)
        nc == IF f.ok THEN RdUVar(b, f.i, 0) ELSE Bad
        nr == IF nc.ok THEN RdUVar(b, nc.i, 0) ELSE Bad
    IN IF ~nr.ok THEN Stop("bad", 0)
       ELSE IF nc.v = 0 THEN (IF nr.v = 0 THEN Stop("empty", nr.i) ELSE Stop("free", 0))
       ELSE IF nc.v > Len(b) \/ nr.v > Len(b) THEN Stop(IF nc.v <= Len(b) THEN "loose" ELSE "bad", 0)
       ELSE LET a == FoldLeft(LAMBDA acc, k : RdCol(acc, b, nr.v), [st |-> "ok", i |-> nr.i, cols |-> <<>>], Ints(nc.v))
            IN IF a.st # "ok" THEN Stop(a.st, 0)
               ELSE [k |-> "block", i |-> a.i, rows |-> [r \in 1..nr.v |-> [c \in 1..nc.v |-> Cell(a.cols[c][2], a.cols[c][3][r])]], shape |-> [c \in 1..nc.v |-> TN!Spell(a.cols[c][2])], exc |-> <<>>]
RdExc(b, i) ==
    IF i + 3 > Len(b) THEN Stop("bad", 0)
    ELSE LET n == RdStr(b, i + 4)
             m == IF n.ok THEN RdStr(b, n.i) ELSE Bad
             s == IF m.ok THEN RdStr(b, m.i) ELSE Bad
         IN IF ~s.ok THEN Stop("bad", 0)
            ELSE IF ~(Ascii(n.v) /\ Ascii(m.v) /\ Ascii(s.v)) THEN Stop("free", 0)
            ELSE [Stop("exc", s.i + 1) EXCEPT !.exc = <<Slice(b, i, 4), n.v, m.v, s.v>>]
Skip(r) == IF r.ok THEN Stop("skip", r.i) ELSE Stop("bad", 0)
Packet(b, i) ==
    CASE b[i] = 1 -> (LET t == RdStr(b, i + 1) IN IF t.ok THEN RdBlock(b, t.i) ELSE Stop("bad", 0))
      [] b[i] = 2 -> RdExc(b, i + 1)
      [] b[i] = 3 -> Skip(SkipNums(b, i + 1, 5))
      [] b[i] = 4 -> Stop("pong", i + 1)
      [] b[i] = 5 -> Stop("eos", i + 1)
      [] b[i] = 6 -> (LET x == SkipNums(b, i + 1, 3) \* rows, blocks, bytes; flag; rows before limit; flag
                          y == IF x.ok /\ x.i <= Len(b) THEN SkipNums(b, x.i + 1, 1) ELSE Bad
                      IN IF y.ok /\ y.i <= Len(b) THEN Stop("skip", y.i + 1) ELSE Stop("bad", 0))
      [] b[i] \in {7, 8, 11} -> Stop("free", 0)
      [] b[i] >= 128 -> Stop("free", 0)
      [] OTHER -> Stop("bad", 0)
\* the answer to a query: the rows before its end, how it ends and where
RECURSIVE Run(_, _, _, _)
Run(b, i, rows, shape) ==
    IF i > Len(b) THEN [end |-> "bad", rows |-> rows, exc |-> <<>>, i |-> i]
    ELSE LET p == Packet(b, i)
         IN CASE p.k \in {"skip", "empty"} -> Run(b, p.i, rows, shape)
              [] p.k = "block" -> IF shape # <<>> /\ shape # p.shape THEN [end |-> "free", rows |-> rows, exc |-> <<>>, i |-> i] ELSE Run(b, p.i, rows \o p.rows, p.shape)
              [] OTHER -> [end |-> IF p.k = "pong" THEN "bad" ELSE p.k, rows |-> rows, exc |-> p.exc, i |-> p.i]
Decode(b) == Run(b, 1, <<>>, <<>>)
=============================================================================
