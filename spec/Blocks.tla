------------------------------- MODULE Blocks -------------------------------
(* A block is a table.  A program makes blocks, reads some from a server, pushes rows, adds     *)
(* columns, clones blocks and shares columns between them.  Values are numbered: every cell     *)
(* ever put anywhere has a number of its own, so any mixing or loss shows.                      *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, CSV, TLC
CONSTANTS Depth, Handles, OutFile
VARIABLES blocks,  \* the tables, by handle: names of columns, where each came from, rows
          hist,    \* what was done, with the outcome and the table it left
          fresh    \* number of the next value
vars == <<blocks, hist, fresh>>

\* kind: "simple" | "complex" (a result of several blocks); src: "s" a column from the server, "l" made here
Table(kind, names, src, rows) == [kind |-> kind, names |-> names, src |-> src, rows |-> rows]
Nums(k, n) == [i \in 1..n |-> k + i - 1]
Grid(k, r, c) == [i \in 1..r |-> Nums(k + (i - 1) * c, c)]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Step(h, f, ok, b) == f @@ [h |-> h, ok |-> ok, names |-> b.names, rows |-> b.rows]
Sources == {[op |-> "new", names |-> <<>>, pieces |-> <<>>, kind |-> "simple"]}
           \cup {[op |-> "serve", names |-> n, pieces |-> p, kind |-> "simple"] : n \in {<<"a">>, <<"a", "b">>}, p \in {<<1>>, <<2>>}}
           \cup {[op |-> "serve", names |-> n, pieces |-> p, kind |-> "complex"] : n \in {<<"a">>, <<"a", "b">>}, p \in {<<0>>, <<2>>, <<1, 2>>, <<2, 0, 1>>}}
Init == \E s \in Sources :
          LET r == Sum(s.pieces) c == Len(s.names) b == Table(s.kind, s.names, [i \in 1..c |-> "s"], Grid(1, r, c)) IN
          /\ blocks = <<b>> /\ fresh = r * c + 1
          /\ hist = <<Step(1, [op |-> s.op, kind |-> s.kind, pieces |-> s.pieces], TRUE, b)>>

\* ---------------------------------------------------------------- rows
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Names(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Names(s)) = Len(s)
Cells(names, bad) == [i \in 1..Len(names) |-> [name |-> names[i], n |-> fresh + i - 1, wrong |-> i = bad]]
Forms(b) ==
    LET N == b.names n == Len(N) IN
    IF n = 0 THEN {Cells(x, 0) : x \in {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "b", "c">>, <<"a", "b", "a">>, <<"b", "b">>}}
    ELSE {Cells(N, i) : i \in {0, 1, n}} \cup {Cells(Rev(N), 0), Cells(Append(N, N[1]), 0), Cells(Append(N, N[n]), 0)}
         \cup (IF n > 1 THEN {Cells(Front(N), 0), Cells(Tail(N), 0), Cells(Rev(N), 1), Cells(Append(Front(N), N[1]), 0)} ELSE {})
         \cup (IF b.rows # <<>> THEN {Cells(Append(N, "zz"), 0), Cells(<<"zz">> \o N, 0), Cells(Append(Front(N), "zz"), 0)} ELSE {})
\* a row is taken if it has exactly one value for every column, each of the column's type
Takes(b, row) ==
    LET given == [i \in 1..Len(row) |-> row[i].name] IN
    /\ Distinct(given) /\ \A i \in 1..Len(row) : ~row[i].wrong
    /\ b.names = <<>> \/ (Distinct(b.names) /\ Names(given) = Names(b.names))
ValueOf(row, name) == row[CHOOSE i \in 1..Len(row) : row[i].name = name].n
\* the order of the columns a first row makes is that of its cells, whichever way it was written
Push(h) == LET b == blocks[h] IN
    \E row \in Forms(b), via \in {"vec", "row"} :
      LET ok == Takes(b, row)
          N == IF b.names = <<>> THEN [i \in 1..Len(row) |-> row[i].name] ELSE b.names
          b2 == IF ok THEN [b EXCEPT !.names = N, !.src = IF b.names = <<>> THEN [i \in 1..Len(N) |-> "l"] ELSE @, !.rows = Append(@, [i \in 1..Len(N) |-> ValueOf(row, N[i])])] ELSE b
      IN /\ (via = "row" => Len(row) <= 4)
         /\ (Depth > 3 => via = (IF (fresh + Len(row)) % 2 = 0 THEN "vec" ELSE "row"))
         /\ blocks' = [blocks EXCEPT ![h] = b2]
         /\ fresh' = fresh + Len(row)
         /\ hist' = Append(hist, Step(h, [op |-> "push", cells |-> row, via |-> via], ok, b2))

\* ---------------------------------------------------------------- columns, clones
\* a column of another length is refused, and the block it was offered to is gone: a clone of it takes the offer
Add(h) == LET b == blocks[h] r == Len(b.rows) IN
    \E name \in {"c", "a"}, n \in (IF b.names = <<>> THEN {1, 2} ELSE {r, r + 1, r - 1} \ {0}) :
      LET ok == b.names = <<>> \/ n = r
          b2 == IF ~ok THEN b
                ELSE [b EXCEPT !.names = Append(@, name), !.src = Append(@, "l"), !.rows = IF b.names = <<>> THEN [i \in 1..n |-> <<fresh + i - 1>>] ELSE [i \in 1..r |-> Append(b.rows[i], fresh + i - 1)]]
      IN /\ Len(b.names) < 3 /\ (r > 0 \/ b.names = <<>>)
         /\ blocks' = [blocks EXCEPT ![h] = b2]
         /\ fresh' = fresh + n
         /\ hist' = Append(hist, Step(h, [op |-> "add", name |-> name, n |-> n, first |-> fresh], ok, b2))
Clone(h) == LET b == blocks[h] IN
    /\ Len(blocks) < Handles
    /\ blocks' = Append(blocks, b) /\ UNCHANGED fresh
    /\ hist' = Append(hist, Step(Len(blocks) + 1, [op |-> "clone", from |-> h], TRUE, b))
\* a new block made of a column of another one
Share(h) == LET b == blocks[h] IN
    \E i \in 1..Len(b.names) :
      LET c == Table("simple", <<b.names[i]>>, <<b.src[i]>>, [j \in 1..Len(b.rows) |-> <<b.rows[j][i]>>]) IN
      /\ Len(blocks) < Handles
      /\ blocks' = Append(blocks, c) /\ UNCHANGED fresh
      /\ hist' = Append(hist, Step(Len(blocks) + 1, [op |-> "share", from |-> h, col |-> i], TRUE, c))
Next == Len(hist) <= Depth /\ \E h \in 1..Len(blocks) : Push(h) \/ Add(h) \/ Clone(h) \/ Share(h)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
Rectangular == \A h \in 1..Len(blocks) : \A i \in 1..Len(blocks[h].rows) : Len(blocks[h].rows[i]) = Len(blocks[h].names)
\* no value is in two places of a block
Unmixed == \A h \in 1..Len(blocks) : LET b == blocks[h] IN
             Cardinality({b.rows[i][j] : i \in 1..Len(b.rows), j \in 1..Len(b.names)}) = Len(b.rows) * Len(b.names)
\* only the block worked on changes, and what it held stays where it was
Stays == [][\A h \in 1..Len(blocks) :
             LET b == blocks[h] c == blocks'[h] IN
             /\ (h # hist'[Len(hist')].h => c = b)
             /\ Len(b.rows) > 0 => /\ IsPrefix(b.names, c.names) /\ Len(c.rows) >= Len(b.rows)
                                   /\ \A i \in 1..Len(b.rows) : IsPrefix(b.rows[i], c.rows[i])
             /\ ~hist'[Len(hist')].ok => c = b]_vars
Emit == Len(hist) = Depth + 1 => CSVWrite("%1$s", <<ToJson([steps |-> hist])>>, OutFile)
=============================================================================
