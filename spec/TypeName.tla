------------------------------ MODULE TypeName ------------------------------
(* The names of column types: how the server spells a type (Spell) and what a name, however     *)
(* spelt, denotes (Parse).  Names are byte sequences.  Types are as in Wire.tla, but texts       *)
(* inside them (enum names, time zones) are byte sequences too.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* ------------------------------------------------------------------ text to bytes
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
Codes(s, base) == [c \in {SubSeq(s, i, i) : i \in 1..Len(s)} |-> base + (CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = c) - 1]
LowerC == Codes(Lower, 97)
UpperC == Codes(Upper, 65)
DigitC == Codes(Digits, 48)
Code(c) == IF c \in DOMAIN LowerC THEN LowerC[c] ELSE IF c \in DOMAIN UpperC THEN UpperC[c] ELSE IF c \in DOMAIN DigitC THEN DigitC[c]
           ELSE CASE c = " " -> 32 [] c = "(" -> 40 [] c = ")" -> 41 [] c = "," -> 44 [] c = "'" -> 39 [] c = "=" -> 61 [] c = "-" -> 45 [] c = "+" -> 43 [] c = "/" -> 47 [] c = "_" -> 95 [] c = "." -> 46 [] c = "`" -> 96
B(s) == [i \in 1..Len(s) |-> Code(SubSeq(s, i, i))]
Num(n) == B(ToString(n))
Low(b) == [i \in 1..Len(b) |-> IF b[i] >= 65 /\ b[i] <= 90 THEN b[i] + 32 ELSE b[i]]

\* ------------------------------------------------------------------ words of the grammar
Simple == <<"UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Int8", "Int16", "Int32", "Int64", "Int128", "Bool", "Float32", "Float64", "String", "Date", "IPv4", "IPv6", "UUID">>
Aliases == <<<<"tinyint", "Int8">>, <<"smallint", "Int16">>, <<"int", "Int32">>, <<"integer", "Int32">>, <<"bigint", "Int64">>, <<"float", "Float32">>, <<"double", "Float64">>,
             <<"char", "String">>, <<"varchar", "String">>, <<"text", "String">>, <<"tinytext", "String">>, <<"mediumtext", "String">>, <<"longtext", "String">>,
             <<"blob", "String">>, <<"tinyblob", "String">>, <<"mediumblob", "String">>, <<"longblob", "String">>>>
Words == [i \in 1..Len(Simple) |-> <<Low(B(Simple[i])), Simple[i]>>] \o [i \in 1..Len(Aliases) |-> <<B(Aliases[i][1]), Aliases[i][2]>>]
Funcs == <<"any", "anyLast", "min", "max", "sum", "sumWithOverflow", "groupBitAnd", "groupBitOr", "groupBitXor", "groupArrayArray", "groupUniqArrayArray", "sumMap", "minMap", "maxMap", "argMin", "argMax">>
FuncB == [i \in 1..Len(Funcs) |-> B(Funcs[i])]
Heads == <<"FixedString", "DateTime", "Timestamp", "DateTime64", "Decimal", "Decimal32", "Decimal64", "Enum8", "Enum16", "Enum", "Nullable", "Array", "LowCardinality", "Map", "SimpleAggregateFunction">>
HeadB == [i \in 1..Len(Heads) |-> <<Low(B(Heads[i])), Heads[i]>>]
Find(tab, w) == LET is == {i \in 1..Len(tab) : tab[i][1] = w} IN IF is = {} THEN "" ELSE tab[CHOOSE i \in is : TRUE][2]

\* ------------------------------------------------------------------ spelling
\* what the server writes for a byte of a quoted text
Esc(b) == CASE b = 39 -> <<92, 39>> [] b = 92 -> <<92, 92>> [] b = 8 -> <<92, 98>> [] b = 9 -> <<92, 116>> [] b = 10 -> <<92, 110>> [] b = 12 -> <<92, 102>> [] b = 13 -> <<92, 114>> [] b = 0 -> <<92, 48>> [] OTHER -> <<b>>
UnEsc(b) == CASE b = 98 -> 8 [] b = 116 -> 9 [] b = 110 -> 10 [] b = 102 -> 12 [] b = 114 -> 13 [] b = 48 -> 0 [] OTHER -> b
Quoted(t) == <<39>> \o FlattenSeq([i \in 1..Len(t) |-> Esc(t[i])]) \o <<39>>
Comma == <<44, 32>>
Sep(ss) == FlattenSeq([i \in 1..Len(ss) |-> IF i = 1 THEN ss[1] ELSE Comma \o ss[i]])
App(h, args) == B(h) \o <<40>> \o Sep(args) \o <<41>>
RECURSIVE Spell(_)
Spell(T) ==
    CASE T[1] = "FixedString" -> App("FixedString", <<Num(T[2])>>)
      [] T[1] = "DateTime" -> IF T[2] = <<>> THEN B("DateTime") ELSE App("DateTime", <<Quoted(T[2])>>)
      [] T[1] = "DateTime64" -> App("DateTime64", <<Num(T[2])>> \o (IF T[3] = <<>> THEN <<>> ELSE <<Quoted(T[3])>>))
      [] T[1] = "Decimal" -> App("Decimal", <<Num(T[2]), Num(T[3])>>)
      [] T[1] \in {"Enum8", "Enum16"} -> App(T[1], [i \in 1..Len(T[2]) |-> Quoted(T[2][i][1]) \o <<32, 61, 32>> \o Num(T[2][i][2])])
      [] T[1] \in {"Nullable", "Array"} -> App(T[1], <<Spell(T[2])>>)
      [] T[1] = "LC" -> App("LowCardinality", <<Spell(T[2])>>)
      [] T[1] = "Map" -> App("Map", <<Spell(T[2]), Spell(T[3])>>)
      [] T[1] = "SAF" -> App("SimpleAggregateFunction", <<B(T[2]), Spell(T[3])>>)
      [] OTHER -> B(T[1])

\* ------------------------------------------------------------------ reading
IsSpace(b) == b = 32 \/ (b >= 9 /\ b <= 13)
IsWord(b) == (b >= 48 /\ b <= 57) \/ (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122) \/ b = 95
\* tokens: <<"w", bytes>>, <<"q", bytes>>, <<"p", byte>>
Tokens(s) ==
    LET flush(a) == IF a.w = <<>> THEN a.t ELSE Append(a.t, <<"w", a.w>>)
        step(a, b) ==
            IF a.m = 2 THEN [a EXCEPT !.m = 1, !.q = Append(a.q, UnEsc(b))]
            ELSE IF a.m = 1 THEN (IF b = 92 THEN [a EXCEPT !.m = 2] ELSE IF b = 39 THEN [a EXCEPT !.m = 0, !.t = Append(a.t, <<"q", a.q>>), !.q = <<>>] ELSE [a EXCEPT !.q = Append(a.q, b)])
            ELSE IF b = 39 THEN [t |-> flush(a), w |-> <<>>, q |-> <<>>, m |-> 1]
            ELSE IF IsWord(b) THEN [a EXCEPT !.w = Append(a.w, b)]
            ELSE IF IsSpace(b) THEN [a EXCEPT !.t = flush(a), !.w = <<>>]
            ELSE [a EXCEPT !.t = Append(flush(a), <<"p", b>>), !.w = <<>>]
        e == FoldLeft(step, [t |-> <<>>, w |-> <<>>, q |-> <<>>, m |-> 0], s)
    IN IF e.m # 0 THEN <<>> ELSE flush(e)

No == [ok |-> FALSE, t |-> <<"none">>, i |-> 0]
Yes(t, i) == [ok |-> TRUE, t |-> t, i |-> i]
Is(ts, i, b) == i <= Len(ts) /\ ts[i][1] = "p" /\ ts[i][2] = b
IsNum(ts, i) == i <= Len(ts) /\ ts[i][1] = "w" /\ (\A k \in 1..Len(ts[i][2]) : ts[i][2][k] >= 48 /\ ts[i][2][k] <= 57)
Value(w) == FoldLeft(LAMBDA a, b : IF a >= 100000000 THEN 1000000000 ELSE a * 10 + (b - 48), 0, w)
\* an integer with an optional sign
Whole(ts, i) == IF Is(ts, i, 43) /\ IsNum(ts, i + 1) THEN Yes(Value(ts[i + 1][2]), i + 2)
              ELSE IF Is(ts, i, 45) /\ IsNum(ts, i + 1) THEN Yes(-Value(ts[i + 1][2]), i + 2)
              ELSE IF IsNum(ts, i) THEN Yes(Value(ts[i][2]), i + 1) ELSE No
IsQ(ts, i) == i <= Len(ts) /\ ts[i][1] = "q"
Close(t, ts, i) == IF Is(ts, i, 41) THEN Yes(t, i + 1) ELSE No
RECURSIVE Pairs(_, _, _, _)
Pairs(ts, i, acc, max) == \* 'name' = n, ...
    IF ~IsQ(ts, i) \/ ~Is(ts, i + 1, 61) THEN No
    ELSE LET n == Whole(ts, i + 2)
             e == Append(acc, <<ts[i][2], n.t>>)
         IN IF ~n.ok \/ n.t > max \/ n.t < -max - 1 THEN No
            ELSE IF Is(ts, n.i, 44) THEN Pairs(ts, n.i + 1, e, max) ELSE Yes(e, n.i)
Dec2(p, s) == p >= 1 /\ p <= 18 /\ s >= 0 /\ s <= p
RECURSIVE ParseT(_, _)
ParseT(ts, i) ==
    IF i > Len(ts) \/ ts[i][1] # "w" THEN No
    ELSE LET w == Low(ts[i][2])
             h == Find(HeadB, w)
             open == Is(ts, i + 1, 40)
             sub == ParseT(ts, i + 2)
         IN IF h = "" THEN (LET s == Find(Words, w) IN IF s = "" THEN No ELSE Yes(<<s>>, i + 1))
            ELSE IF h \in {"DateTime", "Timestamp"} THEN
                (IF ~open THEN Yes(<<"DateTime", <<>>>>, i + 1) ELSE IF IsQ(ts, i + 2) THEN Close(<<"DateTime", ts[i + 2][2]>>, ts, i + 3) ELSE No)
            ELSE IF ~open THEN (CASE h = "DateTime64" -> Yes(<<"DateTime64", 3, <<>>>>, i + 1) [] h = "Decimal" -> Yes(<<"Decimal", 10, 0>>, i + 1) [] OTHER -> No)
            ELSE CASE h = "FixedString" -> (LET n == Whole(ts, i + 2) IN IF n.ok /\ n.t >= 1 THEN Close(<<h, n.t>>, ts, n.i) ELSE No)
                   [] h = "DateTime64" -> (LET n == Whole(ts, i + 2)
                                           IN IF ~n.ok \/ n.t < 0 \/ n.t > 9 THEN No
                                              ELSE IF Is(ts, n.i, 44) THEN (IF IsQ(ts, n.i + 1) THEN Close(<<h, n.t, ts[n.i + 1][2]>>, ts, n.i + 2) ELSE No)
                                              ELSE Close(<<h, n.t, <<>>>>, ts, n.i))
                   [] h = "Decimal" -> (LET p == Whole(ts, i + 2)
                                            s == IF p.ok /\ Is(ts, p.i, 44) THEN Whole(ts, p.i + 1) ELSE No
                                        IN IF ~p.ok THEN No
                                           ELSE IF s.ok THEN (IF Dec2(p.t, s.t) THEN Close(<<h, p.t, s.t>>, ts, s.i) ELSE No)
                                           ELSE IF Dec2(p.t, 0) THEN Close(<<h, p.t, 0>>, ts, p.i) ELSE No)
                   [] h \in {"Decimal32", "Decimal64"} -> (LET s == Whole(ts, i + 2)
                                                               p == IF h = "Decimal32" THEN 9 ELSE 18
                                                           IN IF s.ok /\ Dec2(p, s.t) THEN Close(<<"Decimal", p, s.t>>, ts, s.i) ELSE No)
                   [] h \in {"Enum8", "Enum16", "Enum"} -> (LET x == Pairs(ts, i + 2, <<>>, IF h = "Enum16" THEN 32767 ELSE 127)
                                                            IN IF x.ok THEN Close(<<IF h = "Enum" THEN "Enum8" ELSE h, x.t>>, ts, x.i) ELSE No)
                   [] h = "Nullable" -> IF sub.ok /\ sub.t[1] # "Nullable" THEN Close(<<h, sub.t>>, ts, sub.i) ELSE No
                   [] h = "Array" -> IF sub.ok THEN Close(<<h, sub.t>>, ts, sub.i) ELSE No
                   [] h = "LowCardinality" -> IF sub.ok THEN Close(<<"LC", sub.t>>, ts, sub.i) ELSE No
                   [] h = "Map" -> (LET v == IF sub.ok /\ Is(ts, sub.i, 44) THEN ParseT(ts, sub.i + 1) ELSE No IN IF v.ok THEN Close(<<h, sub.t, v.t>>, ts, v.i) ELSE No)
                   [] h = "SimpleAggregateFunction" ->
                        (LET fs == {k \in 1..Len(FuncB) : i + 2 <= Len(ts) /\ ts[i + 2][1] = "w" /\ ts[i + 2][2] = FuncB[k]}
                             v == IF fs # {} /\ Is(ts, i + 3, 44) THEN ParseT(ts, i + 4) ELSE No
                         IN IF v.ok THEN Close(<<"SAF", Funcs[CHOOSE k \in fs : TRUE], v.t>>, ts, v.i) ELSE No)
Parse(s) == LET ts == Tokens(s)
                x == ParseT(ts, 1)
            IN IF ts # <<>> /\ x.ok /\ x.i = Len(ts) + 1 THEN x ELSE No

\* ------------------------------------------------------------------ types the server can have and the client supports
Ints == {"UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Int8", "Int16", "Int32", "Int64", "Int128"}
InLC(T) == T[1] \in {"String", "FixedString", "UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Date", "DateTime"}
Leaf(T) == T[1] \notin {"Nullable", "Array", "LC", "Map", "SAF"}
Zones == {<<>>, B("UTC"), B("Europe/Moscow"), B("America/New_York"), B("Asia/Tokyo")}
Distinct(es) == \A i, j \in 1..Len(es) : i # j => es[i][1] # es[j][1] /\ es[i][2] # es[j][2]
RECURSIVE Proper(_)
Proper(T) ==
    CASE T[1] = "FixedString" -> T[2] <= 16777215
      [] T[1] = "DateTime" -> T[2] \in Zones
      [] T[1] = "DateTime64" -> T[3] \in Zones
      [] T[1] \in {"Enum8", "Enum16"} -> Distinct(T[2])
      [] T[1] = "Nullable" -> Leaf(T[2]) /\ Proper(T[2])
      [] T[1] = "Array" -> Proper(T[2])
      [] T[1] = "LC" -> IF T[2][1] = "Nullable" THEN InLC(T[2][2]) /\ Proper(T[2]) ELSE InLC(T[2]) /\ Proper(T[2])
      [] T[1] = "Map" -> (T[2][1] \in Ints \cup {"String", "FixedString", "Date", "DateTime", "UUID", "IPv4", "IPv6", "Enum8", "Enum16"} \/ (T[2][1] = "LC" /\ T[2][2][1] \in {"String", "FixedString"})) /\ Proper(T[2]) /\ Proper(T[3])
      [] T[1] = "SAF" -> Proper(T[3]) /\ T[3][1] # "SAF"
      [] OTHER -> TRUE
\* nesting of parentheses
Depth(s) == FoldLeft(LAMBDA a, b : IF a.m = 2 THEN [a EXCEPT !.m = 1] ELSE IF a.m = 1 THEN (IF b = 92 THEN [a EXCEPT !.m = 2] ELSE IF b = 39 THEN [a EXCEPT !.m = 0] ELSE a)
                                   ELSE IF b = 39 THEN [a EXCEPT !.m = 1] ELSE IF b = 40 THEN [a EXCEPT !.d = @ + 1, !.x = IF a.d + 1 > a.x THEN a.d + 1 ELSE a.x] ELSE IF b = 41 THEN [a EXCEPT !.d = @ - 1] ELSE a,
                     [d |-> 0, x |-> 0, m |-> 0], s).x
Text(s) == \A i \in 1..Len(s) : s[i] >= 128 => (s[i] = 195 /\ i < Len(s) /\ s[i + 1] = 169) \/ (s[i] = 169 /\ i > 1 /\ s[i - 1] = 195)
\* a name the server would print, which the client has to understand
Canonical(s) == LET x == Parse(s) IN x.ok /\ Proper(x.t) /\ Depth(s) <= 64 /\ Text(s) /\ Spell(x.t) = s

\* the same type; z is the server's time zone, which stands in where none is stated; DateTime's own may be left out
RECURSIVE Match(_, _, _)
Match(T, U, z) ==
    CASE T[1] # U[1] -> FALSE
      [] T[1] = "DateTime" -> TRUE
      [] T[1] = "DateTime64" -> T[2] = U[2] /\ (IF T[3] = <<>> THEN z ELSE T[3]) = (IF U[3] = <<>> THEN z ELSE U[3])
      [] T[1] \in {"Nullable", "Array", "LC"} -> Match(T[2], U[2], z)
      [] T[1] = "Map" -> Match(T[2], U[2], z) /\ Match(T[3], U[3], z)
      [] T[1] = "SAF" -> T[2] = U[2] /\ Match(T[3], U[3], z)
      [] OTHER -> T = U
=============================================================================
