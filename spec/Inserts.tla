------------------------------- MODULE Inserts ------------------------------
(* Every course an insert can take: the block's size around multiples of the piece's, the        *)
(* table's columns, the server failing at each point.                                            *)
EXTENDS Insert, Json, CSV
CONSTANTS MaxPieces, Layouts, OutFile
VARIABLES lay, comp, names, st, hist
vars == <<lay, comp, names, st, hist>>
Sizes == {a * Max_ + b : a \in 0..MaxPieces, b \in {-1, 0, 1}} \cup {2, 3}
NameSets == 0..15
Init == /\ \E n \in {x \in Sizes : x >= 0 /\ x <= MaxPieces * Max_} : st = Start(n)
        /\ lay \in Layouts /\ comp \in BOOLEAN /\ names \in NameSets /\ hist = <<>>
        /\ (names # 0 => st.n = 2 /\ lay \in {1, 2})
        /\ (st.n > Max_ /\ comp => lay = 2)
Do(e) == st' = Apply(st, e) /\ hist' = Append(hist, e) /\ UNCHANGED <<lay, comp, names>>
\* the failing courses are told on one layout of big blocks and every layout of small ones
Fails == names = 0 /\ (st.n <= Max_ + 1 \/ lay = 1) /\ (st.n > 3 => ~comp /\ lay <= 2)
Turn == Cardinality({i \in 1..Len(hist) : hist[i].k = "query"})
E(k, s) == [k |-> k, s |-> s]
Next == /\ st.bad = "" /\ st.phase # "done"
        /\ \/ st.phase = "idle" /\ Do(E("query", ""))
           \/ st.phase = "asked" /\ \E s \in {"ok", "noisy"} \cup (IF Fails THEN {"fewer", "more", "exc", "close", "reset", "eos"} \cup (IF Turn > 1 THEN {"retyped"} ELSE {}) ELSE {}) :
                (s = "noisy" => st.n <= 3) /\ Do(E("head", IF s = "noisy" THEN "ok" ELSE s) @@ [noise |-> s = "noisy"])
           \/ st.phase \in {"ready", "early"} /\ st.n > 0 /\ hist[Len(hist)].k \in {"head", "ans"}
              /\ (IF hist[Len(hist)].s = "retyped" THEN Do([k |-> "result", s |-> "err", must |-> FALSE, may |-> TRUE])
                  ELSE \E b \in {IF st.n - st.sent > Max_ THEN Max_ ELSE st.n - st.sent} : Do([k |-> "data", a |-> st.sent, b |-> b, t |-> TRUE, s |-> ""]))
           \/ st.phase = "ready" /\ Fails /\ hist[Len(hist)].s # "retyped" /\ \E s \in {"close", "reset", "cut"} : Do(E("ans", s) @@ [noise |-> FALSE, at |-> "ready"])
           \/ st.phase = "ready" /\ Fails /\ hist[Len(hist)].s # "retyped" /\ st.n - st.sent <= 3 /\ Do(E("ans", "early") @@ [noise |-> FALSE, at |-> "ready"])
           \/ (st.phase = "sending" \/ (st.phase = "ready" /\ st.n = 0) \/ (st.phase = "early" /\ (hist[Len(hist)].k = "data" \/ (st.n = 0 /\ hist[Len(hist)].k = "ans")))) /\ Do(E("end", ""))
           \/ st.phase = "ended" /\ \E s \in {"eos", "noisy"} \cup (IF Fails THEN {"exc", "close", "reset"} ELSE {}) : (s = "noisy" => st.n <= 3) /\ Do(E("ans", IF s = "noisy" THEN "eos" ELSE s) @@ [noise |-> s = "noisy", at |-> "ended"])
           \/ st.phase = "complete" /\ Do(E("result", "ok"))
           \/ st.phase \in {"failed", "refused"} /\ Do([k |-> "result", s |-> IF st.exc THEN "exc" ELSE "err", must |-> TRUE, may |-> FALSE])
           \/ st.phase = "early" /\ hist[Len(hist)].k = "end" /\ Do([k |-> "result", s |-> "exc", must |-> FALSE, may |-> FALSE])
Spec == Init /\ [][Next]_vars
Fine == st.bad = ""
\* success means that every row was sent and confirmed; every piece was asked for, and none after a failure
Delivered == (st.phase = "done" /\ hist[Len(hist)].s = "ok") => st.sent = st.n /\ st.confirmed = st.n /\ ~st.exc
Bounded == \A i \in 1..Len(hist) : hist[i].k = "data" => hist[i].b \in 1..Max_ /\ hist[i - 1].k \in {"head", "ans"} /\ (i < Len(hist) => hist[i + 1].k \in {"end"})
Once == \A i, j \in 1..Len(hist) : i < j /\ hist[i].k = "data" /\ hist[j].k = "data" => hist[j].a = hist[i].a + hist[i].b \/ \E k \in i+1..j-1 : hist[k].k = "data"
Asked == Turn <= (st.n + Max_ - 1) \div Max_ + (IF st.n = 0 THEN 1 ELSE 0)
Emit == st.phase = "done" => CSVWrite("%1$s", <<ToJson([n |-> st.n, lay |-> lay, comp |-> comp, names |-> names,
            heads |-> [i \in 1..Len(SelectSeq(hist, LAMBDA e : e.k = "head")) |-> LET e == SelectSeq(hist, LAMBDA x : x.k = "head")[i] IN <<e.s, e.noise>>],
            ans |-> [i \in 1..Len(SelectSeq(hist, LAMBDA e : e.k = "ans")) |-> LET e == SelectSeq(hist, LAMBDA x : x.k = "ans")[i] IN <<e.s, e.noise, e.at>>],
            want |-> hist[Len(hist)].s])>>, OutFile)
=============================================================================
