------------------------------- MODULE Wire -------------------------------
(* The native column format: what bytes a column of a type and a sequence of values is, and what *)
(* values the bytes of a column are.  Operators only; WireCases, WireTrace and Cast use them.   *)
(*                                                                                              *)
(* A type is a tuple whose first element is its kind:                                           *)
(*   <<"UInt8">> .. <<"Int128">>, <<"Float32">>, <<"Bool">>, <<"String">>, <<"Date">>,          *)
(*   <<"IPv4">>, <<"IPv6">>, <<"UUID">>, <<"FixedString", n>>, <<"DateTime", tz>>,              *)
(*   <<"DateTime64", p, tz>>, <<"Decimal", p, s>>, <<"Enum8", pairs>>, <<"Enum16", pairs>>,     *)
(*   <<"Nullable", T>>, <<"Array", T>>, <<"Map", K, V>>, <<"LC", T>>, <<"SAF", f, T>>           *)
(* A value of a fixed-width type is its little-endian byte sequence, of a string its bytes, of  *)
(* a nullable <<>> or <<v>>, of an array the sequence of its items, of a map the sequence of    *)
(* its <<key, value>> pairs, of LC and SAF a value of the inner type.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Pow256 == <<1, 256, 65536, 16777216>>
LE(n, w) == [i \in 1..w |-> IF i <= 4 THEN (n \div Pow256[i]) % 256 ELSE IF n < 0 THEN 255 ELSE 0]
Small(b) == \* the integer of a little-endian sequence whose value is below 2^31
    LET v(i) == IF i <= Len(b) THEN b[i] ELSE 0 IN v(1) + 256 * v(2) + 65536 * v(3) + 16777216 * v(4)
FitsSmall(b) == \A i \in 4..Len(b) : b[i] = 0 \* below 2^24, plenty for lengths

RECURSIVE UVar(_)
UVar(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o UVar(n \div 128)

Width(T) == CASE T[1] \in {"UInt8", "Int8", "Bool", "Enum8"} -> 1
              [] T[1] \in {"UInt16", "Int16", "Date", "Enum16"} -> 2
              [] T[1] \in {"UInt32", "Int32", "Float32", "DateTime", "IPv4"} -> 4
              [] T[1] \in {"UInt64", "Int64", "Float64", "DateTime64"} -> 8
              [] T[1] \in {"UInt128", "Int128", "IPv6", "UUID"} -> 16
              [] T[1] = "FixedString" -> T[2]
              [] T[1] = "Decimal" -> IF T[2] <= 9 THEN 4 ELSE 8
              [] OTHER -> 0
Fixed(T) == Width(T) > 0
RECURSIVE HasLC(_)
HasLC(T) == CASE T[1] = "LC" -> TRUE
              [] T[1] \in {"Nullable", "Array"} -> HasLC(T[2])
              [] T[1] = "SAF" -> HasLC(T[3])
              [] T[1] = "Map" -> HasLC(T[2]) \/ HasLC(T[3])
              [] OTHER -> FALSE

Zeros(n) == [i \in 1..n |-> 0]
\* what is sent in the place of a null
RECURSIVE Filler(_, _)
Filler(T, g) == CASE Fixed(T) -> [i \in 1..Width(T) |-> IF g THEN (IF T[1] = "Bool" THEN 1 ELSE 90 + i) ELSE 0]
                  [] T[1] = "String" -> IF g THEN <<63, 63>> ELSE <<>>
                  [] T[1] = "SAF" -> Filler(T[3], g)
                  [] OTHER -> <<>>

Ints(n) == [i \in 1..n |-> i]
Offsets(vs) == FoldLeft(LAMBDA a, v : <<a[1] + Len(v), a[2] \o LE(a[1] + Len(v), 8)>>, <<0, <<>>>>, vs)[2]

\* lay: the server's freedom.  g: what is under nulls; ix: width code of LowCardinality indexes;
\* d: whether the dictionary starts with the default value; u: the update-dictionary flag
RECURSIVE Enc(_, _, _), Prefix(_), Body(_, _, _)
Prefix(T) == CASE T[1] = "LC" -> LE(1, 8)
               [] T[1] \in {"Nullable", "Array"} -> Prefix(T[2])
               [] T[1] = "SAF" -> Prefix(T[3])
               [] T[1] = "Map" -> Prefix(T[2]) \o Prefix(T[3])
               [] OTHER -> <<>>
DictFrom(vs, start) == \* the distinct values in order of first appearance, after those of start
    FoldLeft(LAMBDA a, v : IF \E j \in 1..Len(a) : a[j] = v THEN a ELSE Append(a, v), start, vs)
Pos(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x /\ \A k \in 1..j-1 : s[k] # x
LCBody(T, vs, lay) ==
    IF Len(vs) = 0 THEN <<>> ELSE
    LET nul == T[1] = "Nullable"
        base == IF nul THEN T[2] ELSE T
        real == IF nul THEN SelectSeq(vs, LAMBDA v : v # <<>>) ELSE vs
        keys == DictFrom([i \in 1..Len(real) |-> IF nul THEN real[i][1] ELSE real[i]],
                         IF nul THEN <<Filler(base, FALSE)>> ELSE IF lay.d THEN <<Filler(base, FALSE)>> ELSE <<>>)
        \* with nullable values key 0 stands for null; keys is what follows it
        dict == IF nul THEN <<Filler(base, FALSE)>> \o keys ELSE keys
        ixw == CASE lay.ix = 0 -> 1 [] lay.ix = 1 -> 2 [] lay.ix = 2 -> 4 [] OTHER -> 8
        index(v) == IF nul THEN (IF v = <<>> THEN 0 ELSE Pos(keys, v[1])) ELSE Pos(keys, v) - 1
    IN  <<lay.ix, IF lay.u THEN 6 ELSE 2, 0, 0, 0, 0, 0, 0>> \o LE(Len(dict), 8) \o Body(base, dict, lay)
        \o LE(Len(vs), 8) \o FlattenSeq([i \in 1..Len(vs) |-> LE(index(vs[i]), ixw)])
Body(T, vs, lay) ==
    CASE Fixed(T) -> FlattenSeq(vs)
      [] T[1] = "String" -> FlattenSeq([i \in 1..Len(vs) |-> UVar(Len(vs[i])) \o vs[i]])
      [] T[1] = "Nullable" -> [i \in 1..Len(vs) |-> IF vs[i] = <<>> THEN 1 ELSE 0]
                              \o Body(T[2], [i \in 1..Len(vs) |-> IF vs[i] = <<>> THEN Filler(T[2], lay.g) ELSE vs[i][1]], lay)
      [] T[1] = "Array" -> Offsets(vs) \o Body(T[2], FlattenSeq(vs), lay)
      [] T[1] = "Map" -> LET all == FlattenSeq(vs)
                         IN Offsets(vs) \o Body(T[2], [i \in 1..Len(all) |-> all[i][1]], lay) \o Body(T[3], [i \in 1..Len(all) |-> all[i][2]], lay)
      [] T[1] = "SAF" -> Body(T[3], vs, lay)
      [] T[1] = "LC" -> LCBody(T[2], vs, lay)
Enc(T, vs, lay) == IF Len(vs) = 0 THEN <<>> ELSE Prefix(T) \o Body(T, vs, lay)

\* ------------------------------------------------------------------ decoding
Bad == [ok |-> FALSE, v |-> <<>>, i |-> 0]
Ok(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
Slice(b, i, n) == SubSeq(b, i, i + n - 1)
RECURSIVE RdUVar(_, _, _)
RdUVar(b, i, k) == IF i > Len(b) \/ k > 4 THEN Bad
                   ELSE IF b[i] < 128 THEN Ok(b[i], i + 1)
                   ELSE LET r == RdUVar(b, i + 1, k + 1) IN IF r.ok /\ r.v < 65536 THEN Ok((b[i] - 128) + 128 * r.v, r.i) ELSE Bad
RdOff(b, i, n) == \* n offsets: non-decreasing, small
    IF i + 8 * n - 1 > Len(b) THEN Bad
    ELSE LET off == [k \in 1..n |-> Slice(b, i + 8 * (k - 1), 8)]
         IN IF \E k \in 1..n : ~FitsSmall(off[k]) THEN Bad
            ELSE LET o == [k \in 1..n |-> Small(off[k])]
                 IN IF \E k \in 2..n : o[k] < o[k-1] THEN Bad ELSE Ok(o, i + 8 * n)
Cut(items, o) == [k \in 1..Len(o) |-> SubSeq(items, (IF k = 1 THEN 0 ELSE o[k-1]) + 1, o[k])]

RECURSIVE DecBody(_, _, _, _), DecPrefix(_, _, _), RdStrings(_, _, _)
DecPrefix(T, b, i) ==
    CASE T[1] = "LC" -> IF i + 7 <= Len(b) /\ Slice(b, i, 8) = LE(1, 8) THEN Ok(<<>>, i + 8) ELSE Bad
      [] T[1] \in {"Nullable", "Array"} -> DecPrefix(T[2], b, i)
      [] T[1] = "SAF" -> DecPrefix(T[3], b, i)
      [] T[1] = "Map" -> LET r == DecPrefix(T[2], b, i) IN IF r.ok THEN DecPrefix(T[3], b, r.i) ELSE Bad
      [] OTHER -> Ok(<<>>, i)
RdStrings(b, i, n) ==
    IF n > Len(b) THEN Bad ELSE
    FoldLeft(LAMBDA a, k : IF ~a.ok THEN a
                           ELSE LET l == RdUVar(b, a.i, 0)
                                IN IF ~l.ok \/ l.i + l.v - 1 > Len(b) THEN Bad ELSE Ok(Append(a.v, Slice(b, l.i, l.v)), l.i + l.v),
             Ok(<<>>, i), Ints(n))
DecLC(T, n, b, i) ==
    IF n = 0 THEN Ok(<<>>, i)
    ELSE IF i + 15 > Len(b) THEN Bad
    ELSE LET fl == Slice(b, i, 8)
             nk == Slice(b, i + 8, 8)
         IN IF fl[1] > 3 \/ fl[2] \notin {2, 6} \/ SubSeq(fl, 3, 8) # Zeros(6) \/ ~FitsSmall(nk) THEN Bad
            ELSE LET base == IF T[1] = "Nullable" THEN T[2] ELSE T
                     ks == DecBody(base, Small(nk), b, i + 16)
                 IN IF ~ks.ok \/ ks.i + 7 > Len(b) \/ Slice(b, ks.i, 8) # LE(n, 8) THEN Bad
                    ELSE LET w == CASE fl[1] = 0 -> 1 [] fl[1] = 1 -> 2 [] fl[1] = 2 -> 4 [] OTHER -> 8
                             st == ks.i + 8
                         IN IF st + w * n - 1 > Len(b) THEN Bad
                            ELSE LET ix == [k \in 1..n |-> Slice(b, st + w * (k - 1), w)]
                                 IN IF \E k \in 1..n : ~FitsSmall(ix[k]) \/ Small(ix[k]) >= Small(nk) THEN Bad
                                    ELSE Ok([k \in 1..n |-> IF T[1] = "Nullable" THEN (IF Small(ix[k]) = 0 THEN <<>> ELSE <<ks.v[Small(ix[k]) + 1]>>)
                                                            ELSE ks.v[Small(ix[k]) + 1]], st + w * n)
DecBody(T, n, b, i) ==
    CASE Fixed(T) -> IF i + Width(T) * n - 1 > Len(b) THEN Bad ELSE Ok([k \in 1..n |-> Slice(b, i + Width(T) * (k - 1), Width(T))], i + Width(T) * n)
      [] T[1] = "String" -> RdStrings(b, i, n)
      [] T[1] = "Nullable" ->
            IF i + n - 1 > Len(b) \/ \E k \in i..(i + n - 1) : b[k] > 1 THEN Bad
            ELSE LET r == DecBody(T[2], n, b, i + n)
                 IN IF r.ok THEN Ok([k \in 1..n |-> IF b[i + k - 1] = 1 THEN <<>> ELSE <<r.v[k]>>], r.i) ELSE Bad
      [] T[1] = "Array" ->
            LET o == RdOff(b, i, n)
            IN IF ~o.ok THEN Bad
               ELSE LET r == DecBody(T[2], IF n = 0 THEN 0 ELSE o.v[n], b, o.i)
                    IN IF r.ok THEN Ok(Cut(r.v, o.v), r.i) ELSE Bad
      [] T[1] = "Map" ->
            LET o == RdOff(b, i, n)
            IN IF ~o.ok THEN Bad
               ELSE LET m == IF n = 0 THEN 0 ELSE o.v[n]
                        ks == DecBody(T[2], m, b, o.i)
                        vs == IF ks.ok THEN DecBody(T[3], m, b, ks.i) ELSE Bad
                    IN IF ks.ok /\ vs.ok THEN Ok(Cut([k \in 1..m |-> <<ks.v[k], vs.v[k]>>], o.v), vs.i) ELSE Bad
      [] T[1] = "SAF" -> DecBody(T[3], n, b, i)
      [] T[1] = "LC" -> DecLC(T[2], n, b, i)
\* the values of a column of n rows whose bytes are exactly b
Dec(T, n, b) ==
    IF n = 0 THEN [ok |-> b = <<>>, v |-> <<>>]
    ELSE LET p == DecPrefix(T, b, 1)
             r == IF p.ok THEN DecBody(T, n, b, p.i) ELSE Bad
         IN [ok |-> r.ok /\ r.i = Len(b) + 1, v |-> r.v]

\* values up to the order of map entries
RECURSIVE Same(_, _, _)
Same(T, a, b) ==
    CASE T[1] = "Map" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(b) : Same(T[2], a[i][1], b[j][1]) /\ Same(T[3], a[i][2], b[j][2])}) >= 1
      [] T[1] = "Array" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(T[2], a[i], b[i])
      [] T[1] = "Nullable" -> Len(a) = Len(b) /\ (a = <<>> \/ Same(T[2], a[1], b[1]))
      [] T[1] = "SAF" -> Same(T[3], a, b)
      [] T[1] = "LC" -> Same(T[2], a, b)
      [] OTHER -> a = b

\* ------------------------------------------------------------------ the meaning of a value, as text
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
\* long division of a big-endian byte sequence by a small number
DivMod(be, d) == LET RECURSIVE go(_, _, _)
                     go(i, r, q) == IF i > Len(be) THEN <<q, r>> ELSE LET x == r * 256 + be[i] IN go(i + 1, x % d, Append(q, x \div d))
                 IN go(1, 0, <<>>)
RECURSIVE Nat2Text(_)
Nat2Text(be) == IF \A i \in 1..Len(be) : be[i] = 0 THEN "" ELSE LET q == DivMod(be, 10) IN Nat2Text(q[1]) \o Digit[q[2] + 1]
UText(le) == LET t == Nat2Text(Reverse(le)) IN IF t = "" THEN "0" ELSE t
Neg(le) == le[Len(le)] >= 128
Negate(le) == LET RECURSIVE go(_, _)
                  go(i, c) == IF i > Len(le) THEN <<>> ELSE LET x == (255 - le[i]) + c IN <<x % 256>> \o go(i + 1, x \div 256)
              IN go(1, 1)
IText(le) == IF Neg(le) THEN "-" \o UText(Negate(le)) ELSE UText(le)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
DecText(le, s) == LET t == Pad(UText(IF Neg(le) THEN Negate(le) ELSE le), s + 1)
                      k == Len(t) - s
                  IN (IF Neg(le) THEN "-" ELSE "") \o SubSeq(t, 1, k) \o "." \o SubSeq(t, k + 1, Len(t))
\* proleptic Gregorian date of a day number (0 = 1970-01-01, may be negative)
Civil(z0) == LET z == z0 + 719468
                 era == z \div 146097
                 doe == z - era * 146097
                 yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
                 doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
                 mp == (5 * doy + 2) \div 153
                 d == doy - ((153 * mp + 2) \div 5) + 1
                 m == IF mp < 10 THEN mp + 3 ELSE mp - 9
                 y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
             IN Pad(ToString(y), 4) \o "-" \o Pad(ToString(m), 2) \o "-" \o Pad(ToString(d), 2)
\* date and time of a count of 10^-p seconds since the epoch
Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000>>
TimeText(le, p, signed) ==
    LET neg == signed /\ Neg(le)
        \* floor division of a signed number: -n = -((n-1) div d) - 1
        mag == Reverse(IF neg THEN Negate(le) ELSE le)
        Inc(be) == Reverse(LET RECURSIVE go(_, _)
                               go(i, c) == IF i > Len(be) THEN <<>> ELSE LET x == be[Len(be) + 1 - i] + c IN <<x % 256>> \o go(i + 1, x \div 256)
                           IN go(1, 1))
        Fl(be, d, ng) == \* <<quotient magnitude, remainder>> of floor division, keeping the sign ng
            LET q == DivMod(be, d) IN IF ng /\ q[2] # 0 THEN <<Inc(q[1]), d - q[2]>> ELSE q
        f1 == Fl(mag, Pow10[(IF p > 6 THEN 6 ELSE p) + 1], neg)
        f2 == Fl(f1[1], Pow10[(IF p > 6 THEN p - 6 ELSE 0) + 1], neg)
        frac == IF p = 0 THEN "" ELSE "." \o (IF p > 6 THEN Pad(ToString(f2[2]), p - 6) ELSE "") \o Pad(ToString(f1[2]), IF p > 6 THEN 6 ELSE p)
        s == Fl(f2[1], 60, neg)
        m == Fl(s[1], 60, neg)
        h == Fl(m[1], 24, neg)
        days == Small(Reverse(h[1]))
    IN Civil(IF neg THEN -days ELSE days) \o " " \o Pad(ToString(h[2]), 2) \o ":" \o Pad(ToString(m[2]), 2) \o ":" \o Pad(ToString(s[2]), 2) \o frac
Hex(b) == Digit[(b \div 16) + 1] \o Digit[(b % 16) + 1]
RECURSIVE HexSeq(_)
HexSeq(bs) == IF bs = <<>> THEN "" ELSE Hex(Head(bs)) \o HexSeq(Tail(bs))
UuidText(b) == LET r == Reverse(SubSeq(b, 1, 8)) \o Reverse(SubSeq(b, 9, 16))
               IN HexSeq(SubSeq(r, 1, 4)) \o "-" \o HexSeq(SubSeq(r, 5, 6)) \o "-" \o HexSeq(SubSeq(r, 7, 8)) \o "-" \o HexSeq(SubSeq(r, 9, 10)) \o "-" \o HexSeq(SubSeq(r, 11, 16))
EnumName(T, v) == LET i == CHOOSE i \in 1..Len(T[2]) : LE(T[2][i][2], Width(T)) = v IN T[2][i][1]

\* the text of a value; strings and floats are their bytes, nested values keep their shape
RECURSIVE Txt(_, _)
Txt(T, v) ==
    CASE T[1] \in {"UInt8", "UInt16", "UInt32", "UInt64", "UInt128"} -> UText(v)
      [] T[1] \in {"Int8", "Int16", "Int32", "Int64", "Int128"} -> IText(v)
      [] T[1] = "Bool" -> IF v[1] = 1 THEN "true" ELSE "false"
      [] T[1] = "Date" -> Civil(Small(v))
      [] T[1] = "DateTime" -> TimeText(v, 0, FALSE)
      [] T[1] = "DateTime64" -> TimeText(v, T[2], TRUE)
      [] T[1] = "Decimal" -> DecText(v, T[3])
      [] T[1] = "IPv4" -> ToString(v[4]) \o "." \o ToString(v[3]) \o "." \o ToString(v[2]) \o "." \o ToString(v[1])
      [] T[1] = "IPv6" -> HexSeq(v)
      [] T[1] = "UUID" -> UuidText(v)
      [] T[1] \in {"Enum8", "Enum16"} -> IText(v)
      [] T[1] = "Nullable" -> IF v = <<>> THEN <<>> ELSE <<Txt(T[2], v[1])>>
      [] T[1] = "Array" -> [i \in 1..Len(v) |-> Txt(T[2], v[i])]
      [] T[1] = "Map" -> [i \in 1..Len(v) |-> <<Txt(T[2], v[i][1]), Txt(T[3], v[i][2])>>]
      [] T[1] = "SAF" -> Txt(T[3], v)
      [] T[1] = "LC" -> Txt(T[2], v)
      [] OTHER -> v

\* ------------------------------------------------------------------ type names as the server prints them
RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Name(_)
Name(T) ==
    CASE T[1] = "FixedString" -> "FixedString(" \o ToString(T[2]) \o ")"
      [] T[1] = "DateTime" -> IF T[2] = "" THEN "DateTime" ELSE "DateTime('" \o T[2] \o "')"
      [] T[1] = "DateTime64" -> "DateTime64(" \o ToString(T[2]) \o (IF T[3] = "" THEN "" ELSE ", '" \o T[3] \o "'") \o ")"
      [] T[1] = "Decimal" -> "Decimal(" \o ToString(T[2]) \o ", " \o ToString(T[3]) \o ")"
      [] T[1] \in {"Enum8", "Enum16"} -> T[1] \o "(" \o Join([i \in 1..Len(T[2]) |-> "'" \o T[2][i][1] \o "' = " \o ToString(T[2][i][2])], ", ") \o ")"
      [] T[1] \in {"Nullable", "Array"} -> T[1] \o "(" \o Name(T[2]) \o ")"
      [] T[1] = "LC" -> "LowCardinality(" \o Name(T[2]) \o ")"
      [] T[1] = "Map" -> "Map(" \o Name(T[2]) \o ", " \o Name(T[3]) \o ")"
      [] T[1] = "SAF" -> "SimpleAggregateFunction(" \o T[2] \o ", " \o Name(T[3]) \o ")"
      [] OTHER -> T[1]
===========================================================================
