----------------------------- MODULE ValueForms -----------------------------
(* What values of one type are equal.  A case is a type and a column of values of it, together  *)
(* with the table that tells which of them denote the same value; the replayer takes the cells  *)
(* in all their forms (borrowed, owned, viewed again, built anew) and compares them pairwise.   *)
EXTENDS WireCases
CONSTANT MaxVals
VARIABLE done
fvars == <<ty, vals, lay, done>>
\* sign, exponent and fraction of a float in little-endian bytes
Exp(v) == IF Len(v) = 4 THEN (v[4] % 128) * 2 + v[3] \div 128 ELSE (v[8] % 128) * 16 + v[7] \div 16
AllOnes(v) == IF Len(v) = 4 THEN 255 ELSE 2047
Frac0(v) == IF Len(v) = 4 THEN v[1] = 0 /\ v[2] = 0 /\ v[3] % 128 = 0 ELSE (\A i \in 1..6 : v[i] = 0) /\ v[7] % 16 = 0
NaN(v) == Exp(v) = AllOnes(v) /\ ~Frac0(v)
ZeroF(v) == Exp(v) = 0 /\ Frac0(v)
RECURSIVE SameVal(_, _, _)
SameVal(T, v, w) ==
    CASE T[1] \in {"Float32", "Float64"} -> ~NaN(v) /\ ~NaN(w) /\ (v = w \/ (ZeroF(v) /\ ZeroF(w)))
      [] T[1] = "Nullable" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : SameVal(T[2], v[i], w[i])
      [] T[1] = "Array" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : SameVal(T[2], v[i], w[i])
      \* a map has no order; its keys differ from each other
      [] T[1] = "Map" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : \E j \in 1..Len(w) : SameVal(T[2], v[i][1], w[j][1]) /\ SameVal(T[3], v[i][2], w[j][2])
      [] T[1] = "SAF" -> SameVal(T[3], v, w)
      [] T[1] = "LC" -> SameVal(T[2], v, w)
      [] OTHER -> v = w
\* as many values of the type as a column of a case may have, each of them twice where there are few
Col(T) == LET s == SetToSeq(Dom(T)) n == Len(s)
          IN IF n <= 6 THEN s \o s ELSE IF n <= MaxVals THEN s \o SubSeq(s, 1, 2)
             ELSE [i \in 1..MaxVals |-> s[1 + ((i - 1) * (n - 1)) \div (MaxVals - 1)]] \o <<s[1], s[n]>>
InitF == /\ ty \in Types /\ vals = <<>> /\ done = FALSE
         /\ lay = CHOOSE l \in Lays(ty) : l.d /\ l.u /\ l.ix = 0
NextF == ~done /\ done' = TRUE /\ vals' = Col(ty) /\ UNCHANGED <<ty, lay>>
SpecF == InitF /\ [][NextF]_fvars
Table == [i \in 1..Len(vals) |-> [j \in 1..Len(vals) |-> SameVal(ty, vals[i], vals[j])]]
\* equality is an equivalence, but for what is not a number
Equiv == LET t == Table IN \A i, j \in 1..Len(vals) : /\ t[i][j] = t[j][i]
                                                      /\ t[i][j] => t[i][i]
                                                      /\ t[i][j] => \A m \in 1..Len(vals) : t[j][m] => t[i][m]
EmitF == done => CSVWrite("%1$s", <<ToJson([t |-> ty, name |-> Name(ty), n |-> Len(vals), v |-> vals, b |-> Enc(ty, vals, lay), x |-> IF Plain(ty) THEN <<>> ELSE [i \in 1..Len(vals) |-> Txt(ty, vals[i])], same |-> Table])>>, OutFile)
=============================================================================
