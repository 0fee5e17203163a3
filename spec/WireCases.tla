----------------------------- MODULE WireCases -----------------------------
(* A server filling a column of some type value by value.  Every reachable state is a column;   *)
(* RoundTrip says the format loses nothing, Emit hands the column to the replayer.              *)
EXTENDS Wire, Json, CSV
CONSTANTS Rows, Deep, Long, OutFile
VARIABLES ty, vals, lay
vars == <<ty, vals, lay>>

IntKinds == {"UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Int8", "Int16", "Int32", "Int64", "Int128"}
E8 == <<<<"a", 1>>, <<"b c", -2>>, <<"", 0>>, <<"max", 127>>, <<"min", -128>>>>
E16 == <<<<"x", 300>>, <<"y,)", -2>>, <<"lo", -32768>>, <<"hi", 32767>>>>
Leaf == {<<k>> : k \in IntKinds \cup {"Bool", "Float32", "Float64", "String", "Date", "IPv4", "IPv6", "UUID"}}
        \cup {<<"FixedString", n>> : n \in {1, 3, 16}}
        \cup {<<"DateTime", tz>> : tz \in {"", "Europe/Moscow"}}
        \cup {<<"DateTime64", p, tz>> : p \in {0, 3, 6, 9}, tz \in {"", "America/New_York"}}
        \cup {<<"Decimal", 9, 4>>, <<"Decimal", 5, 0>>, <<"Decimal", 9, 9>>, <<"Decimal", 18, 2>>, <<"Decimal", 10, 10>>, <<"Decimal", 18, 18>>}
        \cup {<<"Enum8", E8>>, <<"Enum16", E16>>}
Some == {<<"UInt8">>, <<"Int32">>, <<"UInt64">>, <<"Float64">>, <<"String">>, <<"Date">>, <<"DateTime", "">>, <<"FixedString", 3>>, <<"Enum8", E8>>, <<"Decimal", 9, 4>>, <<"Decimal", 18, 2>>,
         <<"UUID">>, <<"IPv4">>, <<"Bool">>, <<"Int128">>, <<"DateTime64", 3, "">>, <<"IPv6">>, <<"Enum16", E16>>, <<"UInt16">>}
Few == {<<"UInt8">>, <<"Int64">>, <<"String">>, <<"Date">>, <<"FixedString", 3>>, <<"UUID">>, <<"Decimal", 18, 2>>, <<"DateTime", "">>}
OtherKeys == {<<"Bool">>, <<"Int8">>, <<"UInt16">>, <<"Int64">>, <<"UInt128">>, <<"Date">>, <<"DateTime", "">>, <<"DateTime64", 3, "">>, <<"FixedString", 3>>, <<"UUID">>, <<"IPv4">>, <<"IPv6">>, <<"Enum8", E8>>, <<"Enum16", E16>>, <<"LC", <<"String">>>>, <<"Decimal", 9, 4>>}
Keys == {<<"String">>, <<"UInt8">>, <<"Int32">>, <<"UInt64">>, <<"Int128">>}
LCInner == {<<"String">>, <<"FixedString", 3>>, <<"UInt64">>, <<"Int8">>, <<"Date">>, <<"DateTime", "">>}
L1 == {<<"Nullable", t>> : t \in Leaf} \cup {<<"Array", t>> : t \in Leaf}
      \cup {<<"LC", t>> : t \in LCInner} \cup {<<"LC", <<"Nullable", t>>>> : t \in {<<"String">>, <<"FixedString", 3>>, <<"UInt64">>}}
      \cup {<<"Map", k, v>> : k \in Keys, v \in Few} \cup {<<"Map", k, v>> : k \in OtherKeys, v \in {<<"UInt8">>, <<"String">>}}
      \cup {<<"SAF", f, t>> : f \in {"sum", "any", "groupBitXor"}, t \in {<<"UInt64">>, <<"Int8">>, <<"String">>, <<"Decimal", 18, 2>>, <<"Date">>}}
L2 == {<<"Array", <<"Nullable", t>>>> : t \in Some} \cup {<<"Array", <<"Array", t>>>> : t \in Some}
      \cup {<<"Map", k, <<"Array", t>>>> : k \in {<<"String">>, <<"UInt8">>}, t \in Few} \cup {<<"Map", k, <<"Nullable", t>>>> : k \in {<<"String">>, <<"UInt8">>}, t \in Few}
      \cup {<<"Array", <<"Map", <<"String">>, t>>>> : t \in {<<"UInt8">>, <<"String">>}} \cup {<<"Map", <<"UInt8">>, <<"Map", <<"String">>, t>>>> : t \in {<<"UInt8">>, <<"String">>, <<"Date">>}}
      \cup {<<"SAF", "any", <<"Nullable", t>>>> : t \in Few} \cup {<<"SAF", "groupArrayArray", <<"Array", t>>>> : t \in Few}
L3 == {<<"Array", <<"Array", <<"Nullable", t>>>>>> : t \in Few} \cup {<<"Array", <<"Array", <<"Array", t>>>>>> : t \in {<<"UInt8">>, <<"String">>}}
      \cup {<<"Map", <<"String">>, <<"Array", <<"Nullable", t>>>>>> : t \in {<<"UInt8">>, <<"String">>}}
      \cup {<<"SAF", "anyLast", <<"Array", <<"Nullable", <<"String">>>>>>>>}

Types == Leaf \cup L1 \cup L2 \cup (IF Deep THEN L3 ELSE {<<"Array", <<"Array", <<"Nullable", <<"Int64">>>>>>>>, <<"Map", <<"String">>, <<"Array", <<"Nullable", <<"UInt8">>>>>>>>})

Pat(w) == [i \in 1..w |-> (((16 * i) % 256) + (i % 7)) % 256]
Bytes(w) == {Zeros(w), [i \in 1..w |-> 255], LE(1, w), [i \in 1..w |-> IF i = w THEN 127 ELSE 255], [i \in 1..w |-> IF i = w THEN 128 ELSE 0], Pat(w)}
Rep(n, x) == [i \in 1..n |-> x]
RECURSIVE Dom(_), SmallDom(_)
Dom(T) ==
    CASE T[1] = "Bool" -> {<<0>>, <<1>>}
      [] T[1] = "Date" -> {LE(n, 2) : n \in {0, 59, 11016, 19782, 65535}}
      [] T[1] = "DateTime" -> {LE(0, 4), LE(951825599, 4), <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}
      [] T[1] = "DateTime64" -> \* 1900 .. 2299, as far as the precision can tell
            {LE(0, 8), LE(1, 8), LE(-1, 8), LE(-1500, 8), LE(1700000001, 8)}
            \cup (IF T[2] = 0 THEN {<<127, 92, 18, 108, 2, 0, 0, 0>>} ELSE {}) \* 2299-12-31 23:59:59 = 10413791999
            \cup (IF T[2] = 3 THEN {<<255, 167, 226, 168, 120, 9, 0, 0>>} ELSE {}) \* ... .999
            \cup (IF T[2] = 6 THEN {<<255, 43, 253, 179, 66, 255, 36, 0>>} ELSE {}) \* microseconds, near 2299
            \cup (IF T[2] = 9 THEN {<<255, 255, 255, 255, 255, 255, 255, 127>>} ELSE {})
      [] T[1] = "Decimal" -> {LE(n, Width(T)) : n \in {0, 1, -1, -5, 12345, -12345, 99999, -99999}}
            \cup (IF T[2] = 9 THEN {LE(999999999, 4), LE(-999999999, 4)} ELSE {}) \cup (IF T[2] = 18 THEN {<<255, 255, 99, 167, 179, 182, 224, 13>>, <<1, 0, 156, 88, 76, 73, 31, 242>>} ELSE {})
      [] T[1] \in {"Enum8", "Enum16"} -> {LE(T[2][i][2], Width(T)) : i \in 1..Len(T[2])}
      [] T[1] = "FixedString" -> {Zeros(T[2]), Rep(T[2], 255), [i \in 1..T[2] |-> IF i = 1 THEN 97 ELSE 0], [i \in 1..T[2] |-> IF i = T[2] THEN 98 ELSE 0], Rep(T[2], 65)}
      [] Fixed(T) -> Bytes(Width(T))
      [] T[1] = "String" -> {<<>>, <<97>>, <<0>>, <<255, 254, 0, 128>>, <<195, 169, 39, 92>>, Rep(127, 120), Rep(128, 121), Rep(260, 122)}
      [] T[1] = "Nullable" -> {<<>>} \cup {<<v>> : v \in Dom(T[2])}
      [] T[1] = "Array" -> {<<>>} \cup {<<v>> : v \in SmallDom(T[2])} \cup {<<v, w>> : v \in SmallDom(T[2]), w \in SmallDom(T[2])}
      [] T[1] = "Map" -> {<<>>} \cup {<<<<k, v>>>> : k \in SmallDom(T[2]), v \in SmallDom(T[3])}
                         \cup {<<<<q[1], q[3]>>, <<q[2], q[4]>>>> : q \in {p \in SmallDom(T[2]) \X SmallDom(T[2]) \X SmallDom(T[3]) \X SmallDom(T[3]) : p[1] # p[2]}}
      [] T[1] = "SAF" -> Dom(T[3])
      [] T[1] = "LC" -> Dom(T[2])
Some2(S) == LET a == CHOOSE x \in S : TRUE IN IF Cardinality(S) > 1 THEN {a, CHOOSE x \in S \ {a} : TRUE} ELSE {a}
SmallDom(T) ==
    CASE T[1] = "String" -> {<<>>, <<98, 0>>, Rep(130, 99)}
      [] T[1] = "Nullable" -> {<<>>} \cup {<<v>> : v \in Some2(SmallDom(T[2]))}
      [] T[1] = "Array" -> {<<>>} \cup {<<v>> : v \in Some2(SmallDom(T[2]))} \cup {<<v, v>> : v \in Some2(SmallDom(T[2]))}
      [] T[1] = "Map" -> {<<>>} \cup {<<<<k, v>>>> : k \in Some2(SmallDom(T[2])), v \in Some2(SmallDom(T[3]))}
      [] T[1] = "SAF" -> SmallDom(T[3])
      [] T[1] = "LC" -> SmallDom(T[2])
      [] T[1] \in {"Date", "DateTime", "DateTime64", "Decimal", "Bool", "Enum8", "Enum16"} -> Some2(Dom(T))
      [] OTHER -> {Pat(Width(T)), [i \in 1..Width(T) |-> IF i = 1 THEN 1 ELSE 0]}

MaxRows(T) == IF T \in Leaf THEN Rows ELSE IF T \in L1 /\ T[1] # "Map" THEN (IF T[1] = "LC" THEN Rows ELSE Rows - 1) ELSE IF Cardinality(Dom(T)) > 12 THEN Rows - 2 ELSE Rows - 1
Lays(T) == IF HasLC(T) THEN [g : {FALSE}, ix : 0..3, d : BOOLEAN, u : BOOLEAN]
           ELSE IF T[1] = "Nullable" THEN [g : BOOLEAN, ix : {0}, d : {TRUE}, u : {TRUE}]
           ELSE {[g |-> TRUE, ix |-> 0, d |-> TRUE, u |-> TRUE]}
\* fixed patterns of longer columns, where offsets, lengths and indexes need more than one byte
Wide(T) == CASE T = <<"LC", <<"String">>>> -> {[i \in 1..n |-> <<97, i % 256, i \div 256>>] : n \in {255, 256, 257, 300}}
             [] T = <<"LC", <<"UInt64">>>> -> {[i \in 1..n |-> LE(i * 7, 8)] : n \in {256, 300}}
             [] T = <<"String">> -> {[i \in 1..20 |-> Rep((i * 53) % 400, i)], <<Rep(16383, 1), Rep(16384, 2), <<3>>>>}
             [] T = <<"Array", <<"UInt8">>>> -> {[i \in 1..40 |-> Rep((i * 37) % 50, <<i>>)]}
             [] T = <<"Array", <<"String">>>> -> {[i \in 1..10 |-> [j \in 1..((i * 3) % 7) |-> Rep((i * j * 11) % 150, j)]]}
             [] T = <<"Nullable", <<"String">>>> -> {[i \in 1..30 |-> IF i % 3 = 0 THEN <<>> ELSE <<Rep((i * 29) % 140, i)>>]}
             [] T = <<"Nullable", <<"Int64">>>> -> {[i \in 1..40 |-> IF i % 4 = 1 THEN <<>> ELSE <<LE(i * 1000003 - 20000000, 8)>>]}
             [] T = <<"Map", <<"String">>, <<"String">>>> -> {[i \in 1..12 |-> [j \in 1..(i % 5) |-> <<<<65 + j>>, Rep((i * j * 17) % 140, j)>>]]}
             [] T = <<"Array", <<"Nullable", <<"UInt64">>>>>> -> {[i \in 1..16 |-> [j \in 1..((i * 5) % 6) |-> IF (i + j) % 3 = 0 THEN <<>> ELSE <<LE(i * j, 8)>>]]}
             [] OTHER -> {}
IxFor(n) == IF n <= 255 THEN {0, 1} ELSE {1, 2}
Init == ty \in Types /\ vals = <<>> /\ lay \in Lays(ty)
\* Long: only the long columns (their records are too long to be written by several workers at once)
Next == /\ \/ ~Long /\ Len(vals) < MaxRows(ty) /\ \E v \in Dom(ty) : vals' = Append(vals, v)
           \/ Long /\ vals = <<>> /\ vals' \in Wide(ty) /\ (HasLC(ty) => lay.ix \in IxFor(Len(vals')) /\ lay.u)
        /\ UNCHANGED <<ty, lay>>
Spec == Init /\ [][Next]_vars

RoundTrip == LET b == Enc(ty, vals, lay) r == Dec(ty, Len(vals), b) IN r.ok /\ r.v = vals
NoTail == LET b == Enc(ty, vals, lay) IN vals # <<>> => ~Dec(ty, Len(vals), Append(b, 0)).ok /\ ~Dec(ty, Len(vals), SubSeq(b, 1, Len(b) - 1)).ok
\* x is left out where it equals v
RECURSIVE Plain(_)
Plain(T) == T[1] \in {"String", "FixedString", "Float32", "Float64"} \/ (T[1] \in {"Nullable", "Array", "LC"} /\ Plain(T[2])) \/ (T[1] = "SAF" /\ Plain(T[3])) \/ (T[1] = "Map" /\ Plain(T[2]) /\ Plain(T[3]))
Record == ToJson([t |-> ty, name |-> Name(ty), n |-> Len(vals), v |-> vals, b |-> Enc(ty, vals, lay), x |-> IF Plain(ty) THEN <<>> ELSE [i \in 1..Len(vals) |-> Txt(ty, vals[i])]])
Emit == LET r == Record IN IF Long = (vals \in Wide(ty)) /\ (Long \/ Len(r) < 8000) THEN CSVWrite("%1$s", <<r>>, OutFile) ELSE TRUE
=============================================================================
