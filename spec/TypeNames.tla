------------------------------ MODULE TypeNames -----------------------------
(* Names to show the client: what the server prints for every type of a bounded grammar, and     *)
(* every one-byte slip of a name (a byte dropped, doubled, replaced, inserted, the rest cut off). *)
EXTENDS TypeName, TLC, Json, CSV
CONSTANTS Deep, OutFile
VARIABLES t, cut
vars == <<t, cut>>

Texts == {<<97>>, <<>>, <<97, 39, 98>>, <<92>>, <<195, 169, 32>>, <<10, 9>>, <<40, 44, 41>>, <<78, 117, 108, 108, 97, 98, 108, 101, 40>>}
Leaves == {<<Simple[i]>> : i \in 1..Len(Simple)}
    \cup {<<"FixedString", n>> : n \in {1, 16, 255, 100000}}
    \cup {<<"DateTime", z>> : z \in Zones}
    \cup {<<"DateTime64", p, z>> : p \in {0, 3, 6, 9}, z \in {<<>>, B("UTC"), B("Europe/Moscow")}}
    \cup {<<"Decimal", d[1], d[2]>> : d \in {<<1, 0>>, <<9, 2>>, <<9, 9>>, <<10, 0>>, <<18, 18>>}}
    \cup {<<"Enum8", <<<<x, 1>>>>>> : x \in Texts}
    \cup {<<"Enum16", <<<<x, -32768>>, <<<<122, 122>>, 32767>>>>>> : x \in Texts}
    \cup {<<"Enum8", <<<<<<97>>, -128>>, <<<<98>>, 0>>, <<<<>>, 127>>>>>>}
Few == {<<"UInt8">>, <<"String">>, <<"FixedString", 16>>, <<"DateTime", B("UTC")>>, <<"DateTime64", 3, B("Europe/Moscow")>>, <<"Decimal", 18, 4>>, <<"Enum8", <<<<<<97, 41, 44>>, 1>>, <<<<39>>, -2>>>>>>}
Wrap1(S, K) == {<<"Array", x>> : x \in S} \cup {<<"Nullable", x>> : x \in {y \in S : Leaf(y)}} \cup {<<"LC", x>> : x \in {y \in S : InLC(y)}} \cup {<<"LC", <<"Nullable", x>>>> : x \in {y \in S : InLC(y)}}
               \cup {<<"Map", k, x>> : k \in K, x \in S} \cup {<<"SAF", f, x>> : f \in {"anyLast", "sum"}, x \in {y \in S : y[1] # "SAF"}}
Keys == {<<"String">>, <<"UInt64">>, <<"LC", <<"String">>>>, <<"Enum8", <<<<<<44, 32>>, 1>>>>>>}
L1 == Wrap1(Leaves, Keys)
L2 == Wrap1(Wrap1(Few, {<<"String">>}), {<<"String">>})
L3 == IF Deep THEN Wrap1(L2, {<<"String">>}) ELSE Wrap1(Wrap1(Wrap1({<<"String">>, <<"Enum8", <<<<<<97, 41, 44>>, 1>>>>>>}, {<<"UInt8">>}), {<<"UInt8">>}), {<<"UInt8">>})
Fs == {<<"SAF", Funcs[i], <<"UInt64">>>> : i \in 1..Len(Funcs)}
\* names that get slips
Slips == {<<"UInt8">>, <<"Int64">>, <<"Date">>, <<"IPv4">>, <<"UUID">>, <<"Bool">>, <<"Float32">>} \cup Few \cup {<<"Decimal", 9, 9>>, <<"Enum16", <<<<<<92>>, -32768>>>>>>, <<"DateTime", <<>>>>, <<"DateTime64", 9, <<>>>>,
          <<"Enum8", <<<<<<10, 195, 169>>, 127>>>>>>,
          <<"Array", <<"UInt8">>>>, <<"Nullable", <<"String">>>>, <<"LC", <<"Nullable", <<"String">>>>>>, <<"Map", <<"String">>, <<"Array", <<"Int8">>>>>>, <<"SAF", "anyLast", <<"Nullable", <<"Int32">>>>>>,
          <<"Array", <<"Enum8", <<<<<<40>>, 1>>>>>>>>}
         \cup (IF Deep THEN L2 ELSE {})
Chars == {32, 40, 41, 44, 39, 61, 48, 57, 97, 85, 92, 45, 43, 0, 200}
Foreign == {"Tuple(UInt8)", "Nested(a UInt8)", "UInt256", "Int256", "Date32", "JSON", "Nothing", "Nullable", "Array", "Map(String)", "Map(String, UInt8, UInt8)", "Array()", "Nullable()", "LowCardinality()", "FixedString()", "FixedString", "FixedString(0)", "Decimal()", "Decimal(19, 2)", "Decimal(38, 10)", "Decimal(5, 6)", "Decimal(0, 0)", "Decimal128(3)", "Decimal256(3)", "Decimal32(10)", "Decimal64(19)",
            "DateTime64(10)", "DateTime()", "DateTime64()", "DateTime(UTC)", "DateTime64('UTC')", "Enum8()", "Enum16", "Enum8('a')", "Enum8('a' = 128)", "Enum8('a' = -129)", "Enum16('a' = 32768)", "Enum16('a' = -32769)", "Enum8('a' = 1", "Enum8('a' = 1))", "Enum8('a' = 1,)", "Nullable(Nullable(UInt8))", "SimpleAggregateFunction(any)", "SimpleAggregateFunction(avg, UInt8)", "SimpleAggregateFunction(UInt8, any)", "AggregateFunction(sum, UInt8)",
            "Array(UInt8", "ArrayUInt8)", "Array(UInt8))", "Array UInt8", "Array((UInt8))", "UInt8()", "UInt8(1)", "String(5)", "Array(Array(UInt8)", "Array(Foo)", "Nullable(Foo)", "LowCardinality(Foo)", "Map(Foo, UInt8)", "Map(UInt8, Foo)", "SimpleAggregateFunction(any, Foo)", "NullableUInt8", "Interval", "IntervalSecond", "Point", "Variant(UInt8)", "Dynamic", "Object('json')", "Void"}

Others == {<<"raw", B2>> : B2 \in {[i \in 1..Len(f) |-> (LET c == SubSeq(f, i, i) IN Code(c))] : f \in Foreign}} \cup {<<"raw", <<>>>>, <<"raw", <<32>>>>, <<"raw", <<255>>>>, <<"raw", <<40, 41>>>>}
Chains == {<<"chain", k, h, c>> : k \in {1, 2, 10, 33, 63, 64, 65, 66, 200, 5000, 100000}, h \in {"Array(", "Nullable(Array(", "Map(UInt8, ", "SimpleAggregateFunction(any, "}, c \in {"UInt8", "Foo"}}
          \cup {<<"chain", k, h, "UInt8">> : k \in 3..62, h \in {"Array("}}
Init == /\ t \in Leaves \cup L1 \cup L2 \cup L3 \cup Fs \cup Slips \cup Others \cup Chains
        /\ cut = "no"
Next == cut = "no" /\ t \in Slips /\ cut' = "yes" /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Slip(s) == UNION {{SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), SubSeq(s, 1, i) \o SubSeq(s, i, Len(s)), SubSeq(s, 1, i)} \cup
                  {SubSeq(s, 1, i - 1) \o <<c>> \o SubSeq(s, i + 1, Len(s)) : c \in Chars} \cup {SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s)) : c \in Chars} : i \in 1..Len(s)}
IsT == t[1] \notin {"raw", "chain"}
\* the printed name of a type denotes that type
Faithful == IsT => (LET x == Parse(Spell(t)) IN x.ok /\ x.t = t)
\* every type here is one the server can have
AllProper == (IsT /\ cut = "no") => Canonical(Spell(t))
Out(r) == CSVWrite("%1$s", <<ToJson(r)>>, OutFile)
Emit == CASE t[1] = "raw" -> Out([s |-> t[2]])
          [] t[1] = "chain" -> Out([s |-> <<>>, k |-> t[2], h |-> t[3], c |-> t[4]])
          [] cut = "no" -> Out([s |-> Spell(t)])
          [] OTHER -> \A x \in Slip(Spell(t)) : Out([s |-> x])
=============================================================================
