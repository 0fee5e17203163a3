------------------------------ MODULE Answers -------------------------------
(* A server answering a query packet by packet: every reachable state is an answer.  RoundTrip   *)
(* says its bytes mean the rows the server put in; Emit hands it to the replayer.                *)
EXTENDS Response, Json, CSV
CONSTANTS MaxLen, OtherLen, OutFile
VARIABLES lay, pks
vars == <<lay, pks>>
A == TN!B("a")
Layouts == << <<<<TN!B("n"), <<"UInt32">>>>>>,
              <<<<A, <<"String">>>>, <<TN!B("b"), <<"Nullable", <<"Int16">>>>>>>>,
              <<<<TN!B("x"), <<"Array", <<"UInt8">>>>>>, <<TN!B("y"), <<"LC", <<"String">>>>>>, <<TN!B("z"), <<"FixedString", 2>>>>>>,
              <<<<A, <<"Array", <<"String">>>>>>, <<TN!B("i"), <<"Int64">>>>, <<A, <<"Date">>>>>>,
              <<<<TN!B("f"), <<"Float64">>>>, <<TN!B("b"), <<"Bool">>>>, <<TN!B("u"), <<"UUID">>>>, <<TN!B("l"), <<"LC", <<"Nullable", <<"String">>>>>>>>>> >>
\* the value of row k in a column of type T
RECURSIVE Val(_, _)
Val(T, k) == CASE T[1] \in {"UInt32", "UInt8", "Int64", "Int16", "Date"} -> LE(100 + k, Width(T))
               [] T[1] = "String" -> IF k % 3 = 0 THEN <<>> ELSE [i \in 1..(k % 4) |-> 96 + k]
               [] T[1] = "FixedString" -> <<65 + k, 0>>
               [] T[1] = "Float64" -> <<0, 0, 0, 0, 0, 0, 16 * (k % 16), 64>>
               [] T[1] = "Bool" -> <<k % 2>>
               [] T[1] = "UUID" -> [i \in 1..16 |-> (16 * k + i) % 256]
               [] T[1] = "Nullable" -> IF k % 2 = 0 THEN <<>> ELSE <<Val(T[2], k)>>
               [] T[1] = "Array" -> [i \in 1..(k % 3) |-> Val(T[2], k + i)]
               [] T[1] = "LC" -> Val(T[2], k % 5)
RowsOf(p) == CASE p = "D1" -> 1 [] p = "D2" -> 2 [] p = "D3" -> 3 [] OTHER -> 0
Total(ps) == FoldLeft(LAMBDA a, p : a + RowsOf(p), 0, ps)
Row(l, k) == [c \in 1..Len(Layouts[l]) |-> Val(Layouts[l][c][2], k)]
RowsFrom(l, k, n) == [r \in 1..n |-> Row(l, k + r)]
\* <<bytes outside, block inside the compression>> of the j-th packet
Pack(l, ps, j) ==
    LET p == ps[j] IN
    CASE p \in {"Z", "D1", "D2", "D3"} -> <<DataHead, Block(Layouts[l], RowsFrom(l, Total(SubSeq(ps, 1, j - 1)), RowsOf(p)))>>
      [] p = "E" -> <<DataHead, Block(<<>>, <<>>)>>
      [] p = "P" -> <<Progress(100 * j), <<>>>>
      [] p = "F" -> <<Profile(100 * j), <<>>>>
      [] p = "X" -> <<Exception(62 + j, TN!B("DB"), TN!B("syntax error"), TN!B("at 0")), <<>>>>
      [] p = "." -> <<Eos, <<>>>>
Done == pks # <<>> /\ pks[Len(pks)] \in {".", "X"}
Init == lay \in 1..Len(Layouts) /\ pks = <<>>
Limit == IF lay = 1 THEN MaxLen ELSE OtherLen
Next == /\ ~Done
        /\ \/ Len(pks) < Limit /\ \E p \in {"Z", "E", "D1", "D2", "P", "F"} \cup (IF Len(pks) <= 1 THEN {"D3"} ELSE {}) : pks' = Append(pks, p)
           \/ pks' = Append(pks, ".")
           \/ Len(pks) <= 3 /\ pks' = Append(pks, "X")
        /\ UNCHANGED lay
Spec == Init /\ [][Next]_vars

Packs == [j \in 1..Len(pks) |-> Pack(lay, pks, j)]
Raw == FlattenSeq([j \in 1..Len(pks) |-> Packs[j][1] \o Packs[j][2]])
Cells == [r \in 1..Total(pks) |-> [c \in 1..Len(Layouts[lay]) |-> Cell(Layouts[lay][c][2], Row(lay, r)[c])]]
RoundTrip == Done => LET d == Decode(Raw) IN d.rows = Cells /\ d.end = (IF pks[Len(pks)] = "." THEN "eos" ELSE "exc") /\ d.i = Len(Raw) + 1
\* no proper part of an answer is an answer
NoPrefix == (Done /\ Len(pks) <= 2) => \A n \in 0..(Len(Raw) - 1) : LET d == Decode(SubSeq(Raw, 1, n))
                IN d.end \in {"bad", "loose"} \/ (d.end = "exc" /\ n = Len(Raw) - 1) \* the last byte says that no further exception is nested
Emit == Done => CSVWrite("%1$s", <<ToJson([l |-> lay, ps |-> pks, pk |-> [j \in 1..Len(pks) |-> [o |-> Packs[j][1], b |-> Packs[j][2]]]])>>, OutFile)
=============================================================================
