------------------------------- MODULE Cast -------------------------------
(* What an insert may do when the block's column type differs from the table's: Means says that *)
(* a value w of the table's type D is equal in meaning to the given value v of type S.  A value *)
(* for which no such w exists, or a pair of types of which it is not known, must be refused.    *)
EXTENDS Wire

\* ------------------------------------------------------------------ numbers as magnitude and sign
Strip(be) == LET nz == {i \in 1..Len(be) : be[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(be, CHOOSE i \in nz : \A j \in nz : i <= j, Len(be))
Mag(le, signed) == Strip(Reverse(IF signed /\ Neg(le) THEN Negate(le) ELSE le))
\* quotient by 10^k, whether the division was exact
DivTen(be, k) == FoldLeft(LAMBDA a, i : LET q == DivMod(a[1], 10) IN <<q[1], a[2] /\ q[2] = 0>>, <<be, TRUE>>, Ints(k))
AddOne(be) == LET RECURSIVE go(_, _)
                  go(i, c) == IF i > Len(be) THEN IF c = 1 THEN <<1>> ELSE <<>> ELSE LET x == be[Len(be) + 1 - i] + c IN <<x % 256>> \o go(i + 1, x \div 256)
              IN Reverse(go(1, 1))
IsNeg(le, signed) == signed /\ Neg(le)
Digits(be) == Len(Nat2Text(be))
\* v counts units of 10^-p, w units of 10^-q: equal, or cut to w's coarser unit toward zero (or down, if floor)
Rescaled(v, sv, p, w, sw, q, floor) ==
    LET mv == Mag(v, sv) mw == Mag(w, sw) nv == IsNeg(v, sv) nw == IsNeg(w, sw)
    IN IF q >= p THEN LET d == DivTen(mw, q - p) IN d[2] /\ Strip(d[1]) = mv /\ (mv = <<>> \/ nv = nw)
       ELSE LET d == DivTen(mv, p - q) m == IF floor /\ nv /\ ~d[2] THEN AddOne(d[1]) ELSE d[1]
            IN Strip(m) = mw /\ (mw = <<>> \/ nv = nw)

\* ------------------------------------------------------------------ texts of addresses
Ascii(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
V4Text(w) == Ascii(w[4]) \o <<46>> \o Ascii(w[3]) \o <<46>> \o Ascii(w[2]) \o <<46>> \o Ascii(w[1])
V6Known == { \* <<text, address>>
    << <<58, 58>>, Zeros(16) >>,                                                                             \* ::
    << <<58, 58, 49>>, [i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0] >>,                                         \* ::1
    << <<50, 48, 48, 49, 58, 100, 98, 56, 58, 58, 70, 70>>, [i \in 1..16 |-> CASE i = 1 -> 32 [] i = 2 -> 1 [] i = 3 -> 13 [] i = 4 -> 184 [] i = 16 -> 255 [] OTHER -> 0] >>, \* 2001:db8::FF
    << <<58, 58, 102, 102, 102, 102, 58, 49, 46, 50, 46, 51, 46, 52>>, [i \in 1..16 |-> CASE i \in {11, 12} -> 255 [] i = 13 -> 1 [] i = 14 -> 2 [] i = 15 -> 3 [] i = 16 -> 4 [] OTHER -> 0] >>, \* ::ffff:1.2.3.4
    << <<49, 58, 50, 58, 51, 58, 52, 58, 53, 58, 54, 58, 55, 58, 56>>, [i \in 1..16 |-> IF i % 2 = 0 THEN i \div 2 ELSE 0] >> } \* 1:2:3:4:5:6:7:8

Enums == {"Enum8", "Enum16"}
Times == {"DateTime", "DateTime64"}
Prec(T) == IF T[1] = "DateTime" THEN 0 ELSE T[2]
IsPadded(v, w) == Len(w) >= Len(v) /\ SubSeq(w, 1, Len(v)) = v /\ \A i \in (Len(v) + 1)..Len(w) : w[i] = 0
Cutoff(v, w) == Len(w) <= Len(v) /\ SubSeq(v, 1, Len(w)) = w /\ \A i \in (Len(w) + 1)..Len(v) : v[i] = 0
EnumHas(T, v) == \E i \in 1..Len(T[2]) : LE(T[2][i][2], Width(T)) = v

\* named: the block knows the names of enum values, not their numbers only
RECURSIVE Means(_, _, _, _, _)
Means(S, D, v, w, named) ==
    CASE S[1] \in {"SAF"} -> Means(S[3], D, v, w, named)
      [] D[1] \in {"SAF"} -> Means(S, D[3], v, w, named)
      [] S[1] = "LC" -> Means(S[2], D, v, w, named)
      [] D[1] = "LC" -> Means(S, D[2], v, w, named)
      [] S[1] = "Nullable" -> IF v = <<>> THEN D[1] = "Nullable" /\ w = <<>>
                              ELSE IF D[1] = "Nullable" THEN Len(w) = 1 /\ Means(S[2], D[2], v[1], w[1], named)
                              ELSE Means(S[2], D, v[1], w, named)
      [] D[1] = "Nullable" -> Len(w) = 1 /\ Means(S, D[2], v, w[1], named)
      [] S[1] = "Array" /\ D[1] = "Array" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : Means(S[2], D[2], v[i], w[i], named)
      [] S[1] = "Map" /\ D[1] = "Map" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : \E j \in 1..Len(w) : Means(S[2], D[2], v[i][1], w[j][1], named) /\ Means(S[3], D[3], v[i][2], w[j][2], named)
      [] S[1] = "Array" /\ S[2] = <<"UInt8">> /\ D[1] = "String" -> w = FlattenSeq(v)
      [] S[1] = "Array" /\ S[2] = <<"UInt8">> /\ D[1] = "FixedString" -> IsPadded(FlattenSeq(v), w)
      [] S[1] = "String" /\ D[1] = "FixedString" -> IsPadded(v, w)
      [] S[1] = "FixedString" /\ D[1] \in {"String", "FixedString"} -> IsPadded(v, w) \/ Cutoff(v, w)
      [] S[1] = "String" /\ D[1] = "IPv4" -> v = V4Text(w)
      [] S[1] = "String" /\ D[1] = "IPv6" -> \E k \in V6Known : k = <<v, w>>
      [] S[1] \in Times /\ D[1] \in Times -> Rescaled(v, S[1] = "DateTime64", Prec(S), w, D[1] = "DateTime64", Prec(D), TRUE)
      [] S[1] = "Decimal" /\ D[1] = "Decimal" -> Rescaled(v, TRUE, S[3], w, TRUE, D[3], FALSE) /\ Digits(Mag(w, TRUE)) <= D[2]
      [] S[1] \in Enums /\ D[1] = S[1] -> IF named THEN EnumHas(S, v) /\ EnumHas(D, w) /\ EnumName(S, v) = EnumName(D, w) ELSE v = w
      [] S = D -> v = w
      [] OTHER -> FALSE

\* types that are the same but for the time zone in which instants are shown
RECURSIVE SansTz(_)
SansTz(T) == CASE T[1] = "DateTime" -> <<"DateTime", "">>
               [] T[1] = "DateTime64" -> <<"DateTime64", T[2], "">>
               [] T[1] \in {"Nullable", "Array", "LC"} -> <<T[1], SansTz(T[2])>>
               [] T[1] = "Map" -> <<"Map", SansTz(T[2]), SansTz(T[3])>>
               [] T[1] = "SAF" -> <<"SAF", T[2], SansTz(T[3])>>
               [] OTHER -> T
RECURSIVE HasTime(_)
HasTime(T) == CASE T[1] = "DateTime" -> TRUE
                [] T[1] \in {"Nullable", "Array", "LC"} -> HasTime(T[2])
                [] T[1] = "Map" -> HasTime(T[2]) \/ HasTime(T[3])
                [] T[1] = "SAF" -> HasTime(T[3])
                [] OTHER -> FALSE
\* inserts the client does not offer and refuses though the types agree: nullable low cardinality
\* columns built locally, and maps built locally with date-times
RECURSIVE Unoffered(_)
Unoffered(T) == CASE T[1] = "LC" -> T[2][1] = "Nullable"
                  [] T[1] \in {"Nullable", "Array"} -> Unoffered(T[2])
                  [] T[1] = "SAF" -> Unoffered(T[3])
                  [] T[1] = "Map" -> HasTime(T) \/ Unoffered(T[2]) \/ Unoffered(T[3])
                  [] OTHER -> FALSE
===========================================================================
