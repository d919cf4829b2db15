----------------------------- MODULE NodeOrder -----------------------------
(* Equality, order and hash of dynamic values, judged on recorded          *)
(* comparisons of every pair of a set of values.                           *)
(*                                                                         *)
(* values.ndjson: one value a line, [k, v, n, ks, e]: n is the rank of a   *)
(* number among those of its kind (equal numbers, equal ranks).            *)
(* rows.ndjson:   [b, i, cells, hash]: build, value, its comparison with   *)
(* every value (0 neither, 1 equal, 2 less, 3 contradictory) and the hash  *)
(* classes of all values in that build.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ordered          \* maps are compared as sequences of entries
Vals == ndJsonDeserialize("values.ndjson")
Rows == ndJsonDeserialize("rows.ndjson")
N == Len(Vals)
VARIABLES w, done

Numbers == {"real", "sint", "uint", "sim"}
RECURSIVE Eq(_, _)
EqSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i])
Eq(a, b) ==
    IF a.k # b.k THEN FALSE
    ELSE CASE a.k \in Numbers -> a.n = b.n
           [] a.k = "arr" -> EqSeq(a.e, b.e)
           [] a.k = "tag" -> a.v = b.v /\ EqSeq(a.e, b.e)
           [] a.k = "map" -> IF Ordered THEN EqSeq(a.ks, b.ks) /\ EqSeq(a.e, b.e)
                             ELSE /\ Len(a.e) = Len(b.e)
                                  /\ \A i \in 1..Len(a.e) : \E j \in 1..Len(b.e) : Eq(a.ks[i], b.ks[j]) /\ Eq(a.e[i], b.e[j])
           [] OTHER -> a.v = b.v

Row(b, i) == Rows[(b - 1) * N + i]
Cell(b, i, j) == Row(b, i)[3][j]
Below(b, i) == Row(b, i)[5]                  \* how many values are less than it
EqOK(b, i, j) == (Cell(b, i, j) = 1) <=> Eq(Vals[i], Vals[j])
NotBoth(b, i, j) == Cell(b, i, j) # 3
(* a strict weak order whose incomparable values are the equal ones: comparison is that of the ranks *)
LessOK(b, i, j) == /\ (Cell(b, i, j) = 2) <=> (Below(b, i) < Below(b, j))
                   /\ (Cell(b, i, j) = 0) <=> (Below(b, i) > Below(b, j))
NumOK(b, i, j) == (Vals[i].k \in Numbers /\ Vals[i].k = Vals[j].k) => ((Cell(b, i, j) = 2) <=> (Vals[i].n < Vals[j].n))
HashOK(b, i, j) == Eq(Vals[i], Vals[j]) => Row(b, i)[4][i] = Row(b, i)[4][j]

Judge(r) == LET b == Rows[r][1]
                i == Rows[r][2]
            IN  {<<j, c>> \in (1..N) \X {"equality", "contradiction", "order", "numeric order", "hash"} :
                    ~(CASE c = "equality" -> EqOK(b, i, j)
                        [] c = "contradiction" -> NotBoth(b, i, j)
                        [] c = "order" -> LessOK(b, i, j)
                        [] c = "numeric order" -> NumOK(b, i, j)
                        [] c = "hash" -> HashOK(b, i, j))}
Init == w \in 1..Len(Rows) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, done>>
Out == ~done \/ (PrintT(ToJson(<<"D", w>>)) /\ \A x \in Judge(w) : PrintT(ToJson(<<"B", w, x[1], x[2]>>)))

(* the specification's own equality is an equivalence on the values given *)
EqLaws == \A i, j \in 1..N : /\ Eq(Vals[i], Vals[i])
                             /\ Eq(Vals[i], Vals[j]) = Eq(Vals[j], Vals[i])
                             /\ Eq(Vals[i], Vals[j]) => \A k \in {1, N, (i + j) \div 2} : Eq(Vals[i], Vals[k]) = Eq(Vals[j], Vals[k])
ASSUME EqLaws
=============================================================================
