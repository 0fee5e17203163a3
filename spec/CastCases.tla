----------------------------- MODULE CastCases -----------------------------
(* Blocks whose column type differs from the table's: every pair of types, values around every  *)
(* limit.  Emit hands them to the replayer; WireTrace judges what the client then sends.        *)
EXTENDS Cast, Json, CSV
CONSTANTS Rows, OutFile
VARIABLES src, dst, vals
vars == <<src, dst, vals>>

E8 == <<<<"a", 1>>, <<"b", -2>>, <<"c", 0>>>>
E8p == <<<<"a", -2>>, <<"b", 1>>, <<"c", 0>>>>                \* the same names, other numbers
E8x == <<<<"c", 0>>, <<"a", 1>>, <<"b", -2>>, <<"d", 5>>>>    \* a superset
E16 == <<<<"a", 1>>, <<"z", 300>>>>
E16p == <<<<"z", 1>>, <<"a", 300>>>>
Nums == {<<"UInt8">>, <<"UInt16">>, <<"UInt32">>, <<"UInt64">>, <<"UInt128">>, <<"Int8">>, <<"Int16">>, <<"Int32">>, <<"Int64">>, <<"Int128">>, <<"Float32">>, <<"Float64">>, <<"Bool">>}
Strs == {<<"String">>, <<"FixedString", 1>>, <<"FixedString", 3>>, <<"FixedString", 4>>}
Tms == {<<"DateTime", "">>, <<"DateTime64", 0, "">>, <<"DateTime64", 3, "">>, <<"DateTime64", 6, "">>, <<"DateTime64", 9, "">>, <<"DateTime64", 3, "Asia/Tokyo">>, <<"DateTime", "Europe/Moscow">>}
Decs == {<<"Decimal", 9, 4>>, <<"Decimal", 9, 0>>, <<"Decimal", 5, 2>>, <<"Decimal", 18, 4>>, <<"Decimal", 18, 2>>, <<"Decimal", 18, 10>>, <<"Decimal", 18, 18>>, <<"Decimal", 10, 0>>}
Ens == {<<"Enum8", E8>>, <<"Enum8", E8p>>, <<"Enum8", E8x>>, <<"Enum16", E16>>, <<"Enum16", E16p>>}
Others == {<<"Date">>, <<"IPv4">>, <<"IPv6">>, <<"UUID">>}
Leaf == Nums \cup Strs \cup Tms \cup Decs \cup Ens \cup Others
Family(T) == CASE T \in Nums -> "num" [] T \in Strs -> "str" [] T \in Tms -> "time" [] T \in Decs -> "dec" [] T \in Ens -> "enum" [] OTHER -> "other"
Pick == {<<"UInt8">>, <<"Int64">>, <<"String">>, <<"FixedString", 3>>, <<"DateTime", "">>, <<"DateTime64", 3, "">>, <<"Decimal", 9, 4>>, <<"Decimal", 18, 2>>, <<"Enum8", E8>>, <<"Enum8", E8p>>, <<"Date">>, <<"IPv4">>, <<"UUID">>}
LCable == {<<"String">>, <<"FixedString", 3>>, <<"UInt8">>, <<"UInt64">>, <<"Int16">>, <<"Date">>, <<"DateTime", "">>}
Ar(t) == <<"Array", t>>
Nu(t) == <<"Nullable", t>>
Pairs == {p \in Leaf \X Leaf : p[1] # p[2]}
         \cup {<<Nu(p[1]), Nu(p[2])>> : p \in {p \in Leaf \X Leaf : p[1] # p[2] /\ Family(p[1]) = Family(p[2]) /\ Family(p[1]) \notin {"num"}}}
         \cup {<<Nu(p[1]), Nu(p[2])>> : p \in {p \in Pick \X Pick : p[1] # p[2]}}
         \cup {<<Ar(p[1]), Ar(p[2])>> : p \in {p \in Pick \X Pick : p[1] # p[2]}}
         \cup {<<t, Nu(t)>> : t \in Pick} \cup {<<Nu(t), t>> : t \in Pick} \cup {<<t, Ar(t)>> : t \in Pick} \cup {<<Ar(t), t>> : t \in Pick}
         \cup {<<Ar(<<"UInt8">>), t>> : t \in Strs \cup {<<"IPv4">>}} \cup {<<Ar(<<"Int8">>), <<"String">>>>}
         \cup {<<s, <<"LC", d>>>> : s \in LCable \cup {<<"Decimal", 9, 4>>, <<"DateTime64", 3, "">>, Nu(<<"String">>)}, d \in LCable}
         \cup {<<<<"LC", s>>, d>> : s \in {<<"String">>, <<"UInt64">>}, d \in {<<"String">>, <<"UInt64">>, <<"FixedString", 3>>}}
         \cup {<<s, <<"SAF", "any", d>>>> : s \in Pick, d \in Pick} \cup {<<<<"SAF", "sum", <<"UInt64">>>>, d>> : d \in {<<"UInt64">>, <<"SAF", "max", <<"UInt64">>>>, <<"SAF", "sum", <<"Int64">>>>}}
         \cup {<<<<"Map", <<"String">>, a>>, <<"Map", <<"String">>, b>>>> : a \in {<<"UInt8">>, <<"String">>}, b \in {<<"UInt8">>, <<"Int64">>, <<"String">>, <<"FixedString", 3>>}}

Rep(n, x) == [i \in 1..n |-> x]
\* <<255, 201, 154, 59>> is 10^9 - 1; <<255, 255, 99, 167, 179, 182, 224, 13>> is 10^18 - 1
DecDom(T) == {LE(n, Width(T)) : n \in {0, 1, -1, 12345, -12345, 99999}}
             \cup (IF T[2] >= 9 THEN {LE(999999999, Width(T)), LE(-999999999, Width(T)), LE(100000000, Width(T)), LE(99999999, Width(T))} ELSE {})
             \cup (IF T[2] = 18 THEN {<<255, 255, 99, 167, 179, 182, 224, 13>>, <<1, 0, 156, 88, 76, 73, 31, 242>>, <<0, 228, 11, 84, 2, 0, 0, 0>>} ELSE {})
StrDom == {<<>>, <<97>>, <<97, 98>>, <<97, 98, 99>>, <<97, 98, 99, 100>>, <<97, 98, 99, 100, 101>>, <<0>>, <<195, 169, 33, 33>>,
           <<49, 46, 50, 46, 51, 46, 52>>, <<50, 53, 53, 46, 48, 46, 48, 46, 49>>, <<49, 46, 50, 46, 51>>, <<49, 46, 50, 46, 51, 46, 50, 53, 54>>, <<48, 49, 46, 50, 46, 51, 46, 52>>, <<58, 58, 103>>, <<255>>}
          \cup {k[1] : k \in V6Known}
TimeDom(T) == IF T[1] = "DateTime" THEN {LE(0, 4), LE(951825599, 4), <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}
              ELSE {LE(0, 8), LE(1, 8), LE(-1, 8), LE(-1500, 8), LE(1700000001, 8), <<255, 255, 255, 255, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1, 0, 0>>}
                   \cup (IF T[2] = 0 THEN {<<127, 92, 18, 108, 2, 0, 0, 0>>} ELSE {})
                   \cup (IF T[2] = 9 THEN {<<255, 255, 255, 255, 255, 255, 255, 127>>} ELSE {})
RECURSIVE CDom(_)
CDom(T) == CASE T[1] = "Bool" -> {<<0>>, <<1>>}
             [] T[1] = "String" -> StrDom
             [] T[1] = "FixedString" -> {Rep(T[2], 97), Zeros(T[2]), [i \in 1..T[2] |-> IF i = 1 THEN 97 ELSE 0]}
             [] T[1] \in Times -> TimeDom(T)
             [] T[1] = "Decimal" -> DecDom(T)
             [] T[1] \in Enums -> {LE(T[2][i][2], Width(T)) : i \in 1..Len(T[2])}
             [] Fixed(T) -> {LE(1, Width(T)), [i \in 1..Width(T) |-> 255], [i \in 1..Width(T) |-> (16 * i) % 256]}
             [] T[1] = "Nullable" -> {<<>>} \cup {<<v>> : v \in CDom(T[2])}
             [] T[1] = "Array" -> {<<>>} \cup {<<v>> : v \in CDom(T[2])} \cup {<<v, v, v, v>> : v \in CDom(T[2])}
             [] T[1] = "Map" -> {<<>>} \cup {<< <<<<97>>, v>> >> : v \in CDom(T[3])}
             [] T[1] = "SAF" -> CDom(T[3])
             [] T[1] = "LC" -> CDom(T[2])
\* a second row in pairs of types between which some value has a meaning
RECURSIVE Akin(_, _)
Akin(S, D) == CASE S[1] \in {"Nullable", "Array", "LC"} /\ D[1] = S[1] -> Akin(S[2], D[2])
                [] D[1] \in {"SAF"} -> Akin(S, D[3])
                [] D[1] \in {"LC"} -> Akin(S, D[2])
                [] S \in Leaf /\ D \in Leaf -> S = D \/ (Family(S) = Family(D) /\ Family(S) # "num") \/ (S[1] = "String" /\ D[1] \in {"IPv4", "IPv6"})
                [] OTHER -> S = Ar(<<"UInt8">>)
Init == \E p \in Pairs : src = p[1] /\ dst = p[2] /\ vals = <<>>
Second == CDom(src)
Next == /\ \/ vals = <<>> /\ \E v \in CDom(src) : vals' = <<v>>
           \/ Len(vals) = 1 /\ Rows > 1 /\ Akin(src, dst) /\ \E v \in CDom(src) : vals' = Append(vals, v)
        /\ UNCHANGED <<src, dst>>
Spec == Init /\ [][Next]_vars

Lay == [g |-> FALSE, ix |-> 0, d |-> TRUE, u |-> TRUE]
\* what a value means does not change when nothing changes, and is one value only
Reflexive == \A i \in 1..Len(vals) : Means(src, src, vals[i], vals[i], TRUE) /\ Means(src, src, vals[i], vals[i], FALSE)
RECURSIVE TrimZ(_)
TrimZ(t) == IF Len(t) > 0 /\ SubSeq(t, Len(t), Len(t)) \in {"0"} THEN TrimZ(SubSeq(t, 1, Len(t) - 1)) ELSE t
\* decimals and instants mean the same iff their texts agree (an independent reading of Rescaled)
ByText == \A i \in 1..Len(vals) :
             src \in Decs /\ dst \in Decs /\ dst[3] >= src[3] =>
                \A w \in DecDom(dst) : Means(src, dst, vals[i], w, TRUE) <=> (TrimZ(DecText(vals[i], src[3])) = TrimZ(DecText(w, dst[3])) /\ Digits(Mag(w, TRUE)) <= dst[2])
Emit == LET r == ToJson([t |-> src, name |-> Name(src), d |-> dst, dname |-> Name(dst), n |-> Len(vals), v |-> vals, b |-> Enc(src, vals, Lay)])
        IN IF vals # <<>> THEN CSVWrite("%1$s", <<r>>, OutFile) ELSE TRUE
=============================================================================
