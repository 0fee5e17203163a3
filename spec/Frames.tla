------------------------------- MODULE Frames -------------------------------
(* A server packing a block into frames: every way to split it, several ways to pack a part.     *)
(* RoundTrip says the frames hold the block; the bad frames hold nothing.                        *)
EXTENDS Lz4, Json, CSV
R == INSTANCE Response
CONSTANTS MaxFrames, OutFile
VARIABLES ct, parts, bad
vars == <<ct, parts, bad>>
B(s) == R!TN!B(s)
Long(n, x) == [i \in 1..n |-> x]
Cols == <<<<B("s"), <<"String">>>>, <<B("n"), <<"UInt16">>>>>>
Blocks == <<R!Block(Cols, <<<<Long(30, 97), <<1, 2>>>>, <<<<98>>, <<3, 4>>>>>>),
            R!Block(<<<<B("n"), <<"UInt8">>>>>>, <<<<<<7>>>>>>),
            R!Block(Cols, <<<<Long(300, 97), <<1, 2>>>>, <<[i \in 1..290 |-> i % 256], <<3, 4>>>>>>)>>
\* how far a part may be from the previous one's end, per block: all lengths for the small ones
Steps(c, rest) == IF c < 3 THEN 1..rest ELSE {n \in {1, 5, 40, 290, 330, 345} \cup {rest} : n <= rest}
Init == ct \in 1..Len(Blocks) /\ parts = <<>> /\ bad = ""
Size(p) == p[2]
Sum(ps) == FoldLeft(LAMBDA a, p : a + p[2], 0, ps)
Rest == Len(Blocks[ct]) - Sum(parts)
Chunk(j) == SubSeq(Blocks[ct], Sum(SubSeq(parts, 1, j - 1)) + 1, Sum(SubSeq(parts, 1, j)))
\* a run of equal bytes in d that can be packed: <<literals before, length>>; <<0, 0>> if there is none
Run(d) == LET ps == {p \in 1..Len(d) : \A k \in 0..4 : p + k <= Len(d) - 12 /\ d[p + k] = d[p]}
          IN IF ps = {} THEN <<0, 0>> ELSE LET p == CHOOSE p \in ps : \A q \in ps : p <= q
                                               es == {e \in (p + 4)..(Len(d) - 12) : \A k \in p..e : d[k] = d[p]}
                                               e == CHOOSE e \in es : \A f \in es : f <= e IN <<p, e - p>>
Payload(j) == LET d == Chunk(j)
                  r == Run(d)
              IN IF parts[j][1] = "run" /\ r[2] > 0 THEN Packed(d, r[1], 1, r[2]) ELSE IF d = <<>> THEN <<0>> ELSE Literal(d)
Sound(j) == FrameBody(130, Payload(j), Size(parts[j]))
\* the last frame spoilt in some way, its checksum being right
Spoilt(j) == LET p == Payload(j)
                 n == Size(parts[j])
             IN CASE bad = "more" -> FrameBody(130, p, n + 1) [] bad = "less" -> FrameBody(130, p, n - 1) [] bad = "cut" -> FrameBody(130, SubSeq(p, 1, Len(p) - 1), n)
                  [] bad = "extra" -> FrameBody(130, p \o <<0>>, n) [] bad = "zstd" -> FrameBody(144, p, n) [] bad = "none" -> FrameBody(2, p, n)
                  [] bad = "far" -> FrameBody(130, <<16, 1, 9, 0>> \o Literal(Long(n - 5, 0)), n)
                  [] bad = "small" -> <<130>> \o LE(8, 4) \o LE(n, 4) \o p [] bad = "nothing" -> FrameBody(130, <<>>, n) [] bad = "huge" -> <<130>> \o LE(Len(p) + 9, 4) \o <<255, 255, 255, 255>> \o p
Kinds == {"more", "less", "cut", "extra", "zstd", "none", "far", "small", "nothing", "huge"}
Next == /\ bad = "" /\ UNCHANGED ct
        /\ \/ Len(parts) < MaxFrames /\ Rest > 0 /\ UNCHANGED bad
              /\ \E n \in Steps(ct, Rest) : \E m \in {"lit"} \cup (IF n > 16 THEN {"run"} ELSE {}) : parts' = Append(parts, <<m, n>>)
           \/ Len(parts) < 2 /\ Rest > 0 /\ parts' = Append(parts, <<"lit", 0>>) /\ UNCHANGED bad
           \/ Rest = 0 /\ Len(parts) <= 2 /\ Size(parts[Len(parts)]) > 5 /\ bad' \in Kinds /\ UNCHANGED parts
Spec == Init /\ [][Next]_vars
Full == Rest = 0
Bodies == [j \in 1..Len(parts) |-> IF bad # "" /\ j = Len(parts) THEN Spoilt(j) ELSE Sound(j)]
RoundTrip == Full => LET c == Contents(Bodies) IN IF bad = "" THEN c.ok /\ c.v = Blocks[ct] ELSE ~c.ok
Emit == Full => CSVWrite("%1$s", <<ToJson([c |-> ct, bad |-> bad, ps |-> [j \in 1..Len(parts) |-> parts[j][2]], f |-> Bodies, raw |-> IF bad = "" THEN R!DataHead \o Blocks[ct] \o R!Eos ELSE <<>>])>>, OutFile)
=============================================================================
