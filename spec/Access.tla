------------------------------- MODULE Access -------------------------------
(* Which Rust type may read which column type: by cell (FromSql) and by typed iterator          *)
(* (Iterable).  Every pair is decided; a pair that is not allowed must be refused.              *)
EXTENDS WireCases
VARIABLES given, req
\* given: a column (its type and values); req: TRUE once its verdicts are known

\* ---------------------------------------------------------------- the Rust types asked for
R(s) == <<s>>
Numbers == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool"}
SqlOf == [u8 |-> "UInt8", u16 |-> "UInt16", u32 |-> "UInt32", u64 |-> "UInt64", u128 |-> "UInt128", i8 |-> "Int8", i16 |-> "Int16", i32 |-> "Int32", i64 |-> "Int64", i128 |-> "Int128",
          f32 |-> "Float32", f64 |-> "Float64", bool |-> "Bool", Decimal |-> "Decimal", Enum8 |-> "Enum8", Enum16 |-> "Enum16", Ipv4Addr |-> "IPv4", Ipv6Addr |-> "IPv6", Uuid |-> "UUID", NaiveDate |-> "Date"]
Texts == {"String", "&str"}
Blobs == Texts \cup {"&[u8]"}
Times == {"DateTime<Tz>"}
CellLeaf == {R(s) : s \in DOMAIN SqlOf \cup Blobs \cup Times}
IterLeaf == {R(s) : s \in (DOMAIN SqlOf \ {"Enum8", "Enum16"}) \cup {"&[u8]"} \cup Times \cup {"NaiveDateTime"}}
VecLeaf == {R(s) : s \in Numbers \cup Blobs \cup Times \cup {"NaiveDate", "Enum8", "Enum16"}}
Bytes8 == <<"Vec", R("u8")>>
FewR == {R("u8"), R("i64"), R("NaiveDate"), R("Uuid"), R("Decimal")}
CellR == CellLeaf \cup {<<"Vec", r>> : r \in VecLeaf} \cup {<<"Vec", Bytes8>>} \cup {<<"Option", r>> : r \in CellLeaf} \cup {<<"Option", Bytes8>>, <<"Option", <<"Vec", R("String")>>>>, <<"Option", <<"Option", R("u8")>>>>}
         \cup {<<"HashMap", R(k), v>> : k \in {"String", "u8", "u64"}, v \in FewR \cup {R("String"), <<"Option", R("u8")>>, <<"Option", R("String")>>, Bytes8, <<"Vec", R("String")>>}}
         \cup {<<"HashMap", R(k), R("u8")>> : k \in {"Uuid", "bool", "Ipv4Addr", "NaiveDate", "&[u8]"}}
         \cup {<<"HashMap", R("u8"), <<"HashMap", R("String"), R("u8")>>>>}
IterR == IterLeaf \cup {<<"Option", r>> : r \in IterLeaf} \cup {<<"Vec", r>> : r \in IterLeaf}
         \cup {<<"Vec", <<c, r>>>> : c \in {"Option", "Vec"}, r \in FewR \cup {R("&[u8]"), R("u64"), R("DateTime<Tz>")}} \cup {<<"Option", <<"Option", R("u8")>>>>, <<"Option", Bytes8>>, <<"Vec", <<"Vec", <<"Option", R("i64")>>>>>>}
         \cup {<<"HashMap", R(k), v>> : k \in {"&[u8]", "u8", "u64"}, v \in FewR \cup {R("&[u8]"), <<"Option", R("u8")>>, <<"Vec", R("u8")>>}}
         \cup {<<"HashMap", R("u8"), <<"HashMap", R("&[u8]"), R("u8")>>>>}
RECURSIVE Rust(_)
Rust(r) == CASE r[1] = "HashMap" -> "HashMap<" \o Rust(r[2]) \o ", " \o Rust(r[3]) \o ">"
             [] r[1] \in {"Vec", "Option"} -> r[1] \o "<" \o Rust(r[2]) \o ">"
             [] OTHER -> r[1]

\* ---------------------------------------------------------------- verdicts
\* "must": succeeds with the value; "never": an error; "free": an error or the value
Worst(a, b) == IF "never" \in {a, b} THEN "never" ELSE IF "free" \in {a, b} THEN "free" ELSE "must"
Text(v) == (\A i \in 1..Len(v) : v[i] < 128) \/ v = <<195, 169, 39, 92>>   \* of the strings used here
Str(T) == T[1] \in {"String", "FixedString"}
RECURSIVE Strip(_)
Strip(T) == CASE T[1] = "SAF" -> Strip(T[3]) [] OTHER -> T
RECURSIVE TypeOnly(_, _), Cell(_, _, _)
\* without looking at the values
TypeOnly(T0, r) ==
    LET T == Strip(T0) IN
    CASE T[1] = "LC" -> TypeOnly(T[2], r)
      [] r[1] = "Option" -> IF T[1] = "Nullable" THEN TypeOnly(T[2], r[2]) ELSE "never"
      [] r = Bytes8 -> IF Str(T) \/ T = <<"Array", <<"UInt8">>>> THEN "must" ELSE IF T[1] = "Array" /\ Strip(T[2]) = <<"UInt8">> THEN "free" ELSE "never"
      [] r[1] = "Vec" -> IF T[1] # "Array" THEN "never"
                         ELSE IF T[2][1] = "FixedString" \/ Strip(T[2]) # T[2] \/ T[2][1] = "LC" \/ (T[2][1] = "Array" /\ r[2] = Bytes8) THEN (IF TypeOnly(T[2], r[2]) = "must" THEN "free" ELSE "never")
                         ELSE TypeOnly(T[2], r[2])
      [] r[1] = "HashMap" -> IF T[1] = "Map" THEN Worst(TypeOnly(T[2], r[2]), TypeOnly(T[3], r[3])) ELSE "never"
      [] r[1] \in Blobs -> IF Str(T) THEN "must" ELSE "never"
      [] r[1] \in Times -> IF T[1] \in {"DateTime", "DateTime64"} THEN "must" ELSE "never"
      [] OTHER -> IF T[1] = SqlOf[r[1]] THEN "must" ELSE "never"
\* of a cell with value v: what isn't there (NULL, an empty map) can't be of a wrong type, and text has to be text
Cell(T0, r, v) ==
    LET T == Strip(T0) t == TypeOnly(T, r) IN
    CASE T[1] = "LC" -> Cell(T[2], r, v)
      [] r[1] = "Option" /\ T[1] = "Nullable" -> IF v = <<>> THEN (IF t = "must" THEN "must" ELSE "free") ELSE Cell(T[2], r[2], v[1])
      [] r[1] \in Texts /\ Str(T) -> IF Text(v) THEN "must" ELSE "never"
      [] r[1] = "Vec" /\ r # Bytes8 /\ T[1] = "Array" -> IF t = "never" THEN "never" ELSE FoldLeft(LAMBDA a, x : Worst(a, Cell(T[2], r[2], x)), t, v)
      [] r[1] = "HashMap" /\ T[1] = "Map" -> IF v = <<>> THEN (IF t = "must" THEN "must" ELSE "free")
                                             ELSE FoldLeft(LAMBDA a, kv : Worst(a, Worst(Cell(T[2], r[2], kv[1]), Cell(T[3], r[3], kv[2]))), "must", v)
      [] OTHER -> t
RECURSIVE Iter(_, _)
Iter(T0, r) ==
    LET T == Strip(T0) IN
    CASE T[1] = "LC" -> IF T[2][1] \in {"String", "FixedString", "Date", "DateTime", "DateTime64"} THEN Iter(T[2], r) ELSE "never"
      [] r[1] = "Option" -> IF T[1] = "Nullable" THEN Iter(T[2], r[2]) ELSE "never"
      [] r[1] = "Vec" -> IF T[1] = "Array" THEN (IF T[2][1] = "LC" /\ Iter(T[2], r[2]) = "must" THEN "free" ELSE Iter(T[2], r[2])) ELSE "never"
      [] r[1] = "HashMap" -> IF T[1] = "Map" THEN LET w == Worst(Iter(T[2], r[2]), Iter(T[3], r[3])) IN (IF w = "must" /\ "LC" \in {T[2][1], T[3][1]} THEN "free" ELSE w) ELSE "never"
      [] r[1] = "&[u8]" -> IF Str(T) THEN "must" ELSE "never"
      [] r[1] \in Times \cup {"NaiveDateTime"} -> IF T[1] \in {"DateTime", "DateTime64"} THEN "must" ELSE "never"
      [] OTHER -> IF T[1] = SqlOf[r[1]] THEN "must" ELSE "never"

\* ---------------------------------------------------------------- columns: every type, with values of every form
More == {<<"Array", <<"LC", <<"String">>>>>>, <<"Map", <<"LC", <<"String">>>>, <<"UInt8">>>>, <<"Array", <<"SAF", "any", <<"UInt8">>>>>>}
Two(S) == LET a == CHOOSE x \in S : TRUE IN IF S = {a} THEN <<a>> ELSE <<a, CHOOSE x \in S \ {a} : TRUE>>
Ascii(n) == [i \in 1..n |-> 96 + ((i - 1) % 20) + 1]
RECURSIVE Plainly(_)
Plainly(T) == \* a few values, all strings text
    CASE T[1] = "String" -> <<<<>>, Ascii(5)>>
      [] T[1] = "FixedString" -> <<Ascii(T[2])>>
      [] T[1] \in {"LC"} -> Plainly(T[2])
      [] T[1] = "SAF" -> Plainly(T[3])
      [] T[1] = "Nullable" -> <<<<>>, <<Last(Plainly(T[2]))>>>>
      [] T[1] = "Array" -> <<<<>>, <<Plainly(T[2])[1]>>, Plainly(T[2]) \o Plainly(T[2])>>
      [] T[1] = "Map" -> <<<<>>, <<<<Last(Plainly(T[2])), Plainly(T[3])[1]>>>>, <<<<Last(Plainly(T[2])), Last(Plainly(T[3]))>>>>>>
      [] OTHER -> Two(Dom(T))
Odd(T) == CASE T[1] = "String" -> <<<<255, 254>>, <<97>>>> [] T[1] = "FixedString" -> <<Rep(T[2], 255), Ascii(T[2])>> [] OTHER -> <<>>
RECURSIVE OddIn(_)
OddIn(T) == CASE T[1] \in {"Nullable", "Array"} -> [i \in 1..Len(OddIn(T[2])) |-> <<OddIn(T[2])[i]>>] [] T[1] = "LC" -> OddIn(T[2]) [] T[1] = "SAF" -> OddIn(T[3])
              [] T[1] = "Map" /\ OddIn(T[3]) # <<>> -> <<<<<<Last(Plainly(T[2])), OddIn(T[3])[1]>>>>>> [] OTHER -> Odd(T)
Lay == [g |-> FALSE, ix |-> 0, d |-> TRUE, u |-> TRUE]
Cols == {<<T, Plainly(T)>> : T \in Types \cup More} \cup {<<T, OddIn(T)>> : T \in {X \in Types \cup More : OddIn(X) # <<>>}} \cup {<<T, SubSeq(Plainly(T), 1, 1)>> : T \in {X \in Types : X[1] \in {"Nullable", "Array", "Map"}}}
        \cup (IF Deep THEN UNION {{<<T, <<v>>>> : v \in Dom(T)} : T \in Types} ELSE {})

AInit == given \in Cols /\ req = FALSE /\ ty = given[1] /\ vals = given[2] /\ lay = Lay
ANext == ~req /\ req' = TRUE /\ UNCHANGED <<given, ty, vals, lay>>
ASpec == AInit /\ [][ANext]_<<vars, given, req>>

T == given[1]
V == given[2]
CellOf(r) == [i \in 1..Len(V) |-> Cell(T, r, V[i])]
\* ---------------------------------------------------------------- properties of the table of verdicts
\* a type read by some leaf type isn't read by another one that means something else
Disjoint == \A r, q \in CellLeaf : TypeOnly(T, r) = "must" /\ TypeOnly(T, q) = "must" => r = q \/ {r[1], q[1]} \subseteq Blobs
\* wrapping a type the wrong way is refused
Layers == \A r \in CellLeaf : (TypeOnly(T, <<"Option", r>>) # "never" => Strip(T)[1] \in {"Nullable", "LC"})
Consistent == \A r \in CellR : \A i \in 1..Len(V) : TypeOnly(T, r) = "must" => Cell(T, r, V[i]) # "free"
Compact(f) == IF \A i \in 1..Len(V) : f[i] = "never" THEN <<>> ELSE f
AEmit == req => LET rec == ToJson([t |-> T, name |-> Name(T), n |-> Len(V), v |-> V, b |-> Enc(T, V, Lay), x |-> IF Plain(T) THEN <<>> ELSE [i \in 1..Len(V) |-> Txt(T, V[i])],
                     cells |-> [q \in {Rust(r) : r \in {x \in CellR : Compact(CellOf(x)) # <<>>}} |-> CellOf(CHOOSE x \in CellR : Rust(x) = q)],
                     iters |-> [q \in {Rust(r) : r \in {x \in IterR : Iter(T, x) # "never"}} |-> Iter(T, CHOOSE x \in IterR : Rust(x) = q)],
                     requests |-> IF T = <<"UInt8">> THEN [cells |-> {Rust(r) : r \in CellR}, iters |-> {Rust(r) : r \in IterR}] ELSE [cells |-> {}, iters |-> {}]])
                IN CSVWrite("%1$s", <<rec>>, OutFile)
=============================================================================
