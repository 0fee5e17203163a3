-------------------------------- MODULE Lz4 ---------------------------------
(* Frames of compressed data: header, LZ4 block format.  The checksum in front of a frame's body *)
(* (CityHash128 1.0.2) is computed by the replayer.                                              *)
EXTENDS Wire
\* a length whose nibble is n, continued at b[i]: <<length, next>>; <<-1, 0>> if cut off
RECURSIVE More(_, _, _)
More(b, i, n) == IF i > Len(b) THEN <<-1, 0>> ELSE IF b[i] < 255 THEN <<n + b[i], i + 1>> ELSE More(b, i + 1, n + 255)
Length(b, i, nib) == IF nib < 15 THEN <<nib, i>> ELSE More(b, i, 15)
Copy(out, off, n) == out \o [k \in 1..n |-> out[Len(out) - off + 1 + ((k - 1) % off)]]
Fail == [ok |-> FALSE, v |-> <<>>]
\* one token, its literals and its match; the last token has no match
Step(b, st, max) ==
    IF st.end THEN st
    ELSE LET i == st.i
             out == st.v
             bad == [ok |-> FALSE, v |-> <<>>, i |-> 0, end |-> TRUE]
             l == Length(b, i + 1, b[i] \div 16)
         IN IF l[1] < 0 \/ l[2] + l[1] - 1 > Len(b) \/ Len(out) + l[1] > max THEN bad
            ELSE LET o == out \o Slice(b, l[2], l[1])
                     j == l[2] + l[1]
                 IN IF j = Len(b) + 1 THEN [ok |-> TRUE, v |-> o, i |-> j, end |-> TRUE]
                    ELSE IF j + 1 > Len(b) THEN bad
                    ELSE LET off == b[j] + 256 * b[j + 1]
                             m == Length(b, j + 2, b[i] % 16)
                         IN IF off = 0 \/ off > Len(o) \/ m[1] < 0 \/ Len(o) + m[1] + 4 > max \/ m[2] > Len(b) THEN bad
                            ELSE [ok |-> FALSE, v |-> Copy(o, off, m[1] + 4), i |-> m[2], end |-> FALSE]
\* every token takes at least three bytes, the last one aside
Seqs(b, max) == IF b = <<>> THEN [ok |-> FALSE, v |-> <<>>]
                ELSE FoldLeft(LAMBDA st, k : Step(b, st, max), [ok |-> FALSE, v |-> <<>>, i |-> 1, end |-> FALSE], [k \in 1..(Len(b) \div 3 + 1) |-> k])
Unpack(b, orig) == LET r == Seqs(b, orig) IN IF r.ok /\ Len(r.v) = orig THEN [ok |-> TRUE, v |-> r.v] ELSE Fail
\* the content of a frame whose body (method, sizes, payload) is b
Content(b) == IF Len(b) < 9 \/ b[1] # 130 \/ SubSeq(b, 2, 5) # LE(Len(b), 4) \/ ~FitsSmall(SubSeq(b, 6, 9)) THEN Fail
              ELSE Unpack(SubSeq(b, 10, Len(b)), Small(SubSeq(b, 6, 9)))
Contents(bs) == FoldLeft(LAMBDA a, b : LET c == Content(b) IN IF a.ok /\ c.ok THEN [ok |-> TRUE, v |-> a.v \o c.v] ELSE Fail, [ok |-> TRUE, v |-> <<>>], bs)

\* ------------------------------------------------------------------ packing
Ext(n) == IF n < 15 THEN <<>> ELSE [k \in 1..((n - 15) \div 255) |-> 255] \o <<(n - 15) % 255>>
Nib(n) == IF n < 15 THEN n ELSE 15
Literal(d) == <<16 * Nib(Len(d))>> \o Ext(Len(d)) \o d
\* literals d[1..p], then n bytes (at least 4) copied from off back, then the rest as literals
Packed(d, p, off, n) == <<16 * Nib(p) + Nib(n - 4)>> \o Ext(p) \o SubSeq(d, 1, p) \o <<off % 256, off \div 256>> \o Ext(n - 4) \o Literal(SubSeq(d, p + n + 1, Len(d)))
FrameBody(method, payload, orig) == <<method>> \o LE(Len(payload) + 9, 4) \o LE(orig, 4) \o payload
=============================================================================
