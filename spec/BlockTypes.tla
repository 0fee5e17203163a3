----------------------------- MODULE BlockTypes -----------------------------
(* Types of columns for the histories of Blocks.tla: values each can hold and typed values it   *)
(* cannot, for a column from the server and for one made by pushing values.                     *)
EXTENDS WireCases
VARIABLES p, out
Alike(T, U) == T = U \/ (T[1] \in {"String", "FixedString"} /\ U[1] = "String")
Others == {<<"UInt8">>, <<"UInt16">>, <<"UInt32">>, <<"UInt64">>, <<"Int8">>, <<"Int64">>, <<"Float64">>, <<"Bool">>, <<"String">>, <<"Date">>, <<"IPv4">>, <<"IPv6">>, <<"UUID">>, <<"Array", <<"UInt8">>>>, <<"Nullable", <<"String">>>>, <<"Decimal", 9, 3>>, <<"Enum8", E8>>}
One(T) == CHOOSE v \in Dom(T) : v # <<>>
Mark(t, v) == [t |-> t, v |-> v, then |-> <<>>]
\* (sequences, since values of different types can't be put in a set)
Each(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
Only(F(_), q) == SelectSeq(q, F)
Plainly(q) == Only(LAMBDA w : w.then = <<>>, q)
OtherSeq == SetToSeq(Others)
Kindless(T) == Each(LAMBDA U : Mark(U, One(U)), Only(LAMBDA x : ~Alike(T, x) /\ ~(x[1] = "Decimal" /\ T[1] = "Decimal" /\ T[3] = 3), OtherSeq))
\* local: 0 a column from the server, 1 one made of values, 2 within an array or a map of such a one
Inner(local) == IF local = 0 THEN 0 ELSE 2
RECURSIVE Wrong(_, _)
Wrong(T, local) ==
    CASE T[1] = "LC" -> Wrong(T[2], local)
      [] T[1] = "SAF" -> Wrong(T[3], local)
      [] T[1] = "Nullable" -> LET q == Only(LAMBDA w : w.t[1] # "Nullable", Wrong(T[2], local)) IN q \o Each(LAMBDA w : Mark(<<"Nullable", w.t>>, <<w.v>>), Plainly(q))
      [] T[1] = "Array" -> LET q == Plainly(Wrong(T[2], Inner(local))) IN
                           Only(LAMBDA w : w.t[1] # "Array", Kindless(T)) \o Each(LAMBDA w : Mark(<<"Array", w.t>>, <<w.v>>), q)
                           \* a right element, then a wrong one
                           \o Each(LAMBDA w : [t |-> T[2], v |-> One(T[2]), then |-> <<w.t, w.v>>], q)
      [] T[1] = "Map" -> Kindless(T) \o Each(LAMBDA w : Mark(<<"Map", w.t, T[3]>>, <<<<w.v, One(T[3])>>>>), Plainly(Wrong(T[2], Inner(local))))
                         \o Each(LAMBDA w : Mark(<<"Map", T[2], w.t>>, <<<<One(T[2]), w.v>>>>), Plainly(Wrong(T[3], Inner(local))))
      [] T[1] = "FixedString" -> Kindless(T) \o (IF local = 1 THEN <<>> ELSE <<Mark(<<"String">>, Rep(T[2] + 1, 97)), Mark(<<"String">>, Rep(2 * T[2], 97))>>)
      [] T[1] = "Decimal" -> Kindless(T) \o Each(LAMBDA s : Mark(<<"Decimal", 18, s>>, LE(12345, 8)), SetToSeq({0, 3, 5, 18} \ {T[3]}))
                             \o (IF local # 1 /\ T[2] < 18 THEN <<Mark(<<"Decimal", 18, T[3]>>, <<255, 255, 99, 167, 179, 182, 224, 13>>)>> ELSE <<>>)
      [] T[1] = "Enum8" -> Only(LAMBDA w : w.t[1] # "Enum8", Kindless(T)) \o <<Mark(<<"Enum8", <<<<"other", 5>>>>>>, LE(5, 1)), Mark(<<"Enum8", <<<<"other", 1>>>>>>, LE(1, 1)), Mark(<<"Enum16", E16>>, LE(300, 2))>>
      [] T[1] = "Enum16" -> Kindless(T) \o <<Mark(<<"Enum16", <<<<"other", 5>>>>>>, LE(5, 2)), Mark(<<"Enum16", <<<<"z", 300>>>>>>, LE(300, 2))>>
      [] T[1] = "DateTime" -> Kindless(T) \o (IF local # 0 THEN <<>> ELSE <<Mark(<<"DateTime64", 3, "">>, LE(-1500, 8)), Mark(<<"DateTime64", 0, "">>, <<127, 92, 18, 108, 2, 0, 0, 0>>)>>)
      [] T[1] = "DateTime64" -> Kindless(T) \o (IF T[2] = 9 THEN <<Mark(<<"DateTime64", 0, "">>, <<127, 92, 18, 108, 2, 0, 0, 0>>)>> ELSE <<>>)
      [] OTHER -> Kindless(T) \o <<Mark(<<"Nullable", T>>, <<One(T)>>), Mark(<<"Nullable", T>>, <<>>)>>
PInit == p \in Types /\ out = FALSE /\ ty = p /\ vals = <<>> /\ lay = CHOOSE l \in Lays(p) : TRUE
PNext == ~out /\ out' = TRUE /\ UNCHANGED <<p, ty, vals, lay>>
PSpec == PInit /\ [][PNext]_<<vars, p, out>>
\* something is wrong for every type, and nothing of the type itself
Told == LET q == Wrong(p, 0) IN q # <<>> /\ Wrong(p, 1) # <<>> /\ \A i \in 1..Len(q) : q[i].t = p => q[i].then # <<>>
Vals == LET n == Cardinality(Dom(p)) s == SetToSeq(Dom(p)) IN SubSeq(s, 1, IF n > 12 THEN 12 ELSE n)
\* the columns a server has to send in those histories: value number n is Vals[n % Len(Vals) + 1]
Lists == <<<<1>>, <<1, 2>>, <<2, 3>>, <<3>>, <<1, 3>>, <<3, 5>>, <<5>>, <<2>>, <<2, 4>>, <<4, 6>>, <<6>>>>
Enced == [i \in 1..Len(Lists) |-> LET q == Lists[i] IN [q |-> q, b |-> Enc(p, [j \in 1..Len(q) |-> Vals[(q[j] % Len(Vals)) + 1]], lay)]]
Sound == \A i \in 1..Len(Lists) : LET r == Dec(p, Len(Lists[i]), Enced[i].b) IN r.ok /\ r.v = [j \in 1..Len(Lists[i]) |-> Vals[(Lists[i][j] % Len(Vals)) + 1]]
PEmit == out => CSVWrite("%1$s", <<ToJson([t |-> p, name |-> Name(p), vals |-> Vals, enc |-> Enced, served |-> Wrong(p, 0), local |-> Wrong(p, 1)])>>, OutFile)
=============================================================================
