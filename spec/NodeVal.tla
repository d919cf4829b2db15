------------------------------ MODULE NodeVal ------------------------------
(* Dynamic values as values.  A register holds a tree; an operation names  *)
(* nodes by their place (register, then child numbers) and replaces what   *)
(* is there.  Whatever the places have to do with one another - the same   *)
(* node, a node and one inside it, two inside one - the outcome is that of *)
(* reading the right-hand side first and then storing it.                  *)
(*                                                                         *)
(* A node that was moved from holds some value, unspecified: [k |-> "?"].  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Lang,        \* "json" or "cbor"
          Ordered,     \* maps keep the order of insertion (else the order of keys)
          Inits,       \* sequence of sequences of trees: the registers at the beginning
          Vals,        \* trees assigned as values of their own type
          Lists,       \* trees assigned as initializer lists
          Keys,        \* keys, in their order
          Ops,         \* the operations taken
          Depth,       \* operations in a row
          MaxSize,     \* nodes in a register
          MaxPath      \* deepest place named
VARIABLES regs, hist
vars == <<regs, hist>>

Unknown == [k |-> "?"]
Leaf(k, v) == [k |-> k, v |-> v]
Arr(e) == [k |-> "arr", e |-> e]
Map(ks, e) == [k |-> "map", ks |-> ks, e |-> e]
Tag(n, t) == [k |-> "tag", v |-> n, e |-> <<t>>]
HasKids(t) == t.k \in {"arr", "map", "tag"}
Empty == IF Lang = "json" THEN Leaf("null", "") ELSE Leaf("undef", "")

(* ---- places *)
RECURSIVE Under(_, _)
Under(t, d) == {<<>>} \cup (IF HasKids(t) /\ d > 0 THEN UNION {{<<i>> \o p : p \in Under(t.e[i], d - 1)} : i \in 1..Len(t.e)} ELSE {})
Places(g) == UNION {{<<r>> \o p : p \in Under(g[r], MaxPath)} : r \in 1..Len(g)}
RECURSIVE Has(_, _)
Has(t, p) == IF p = <<>> THEN TRUE ELSE HasKids(t) /\ Head(p) \in 1..Len(t.e) /\ Has(t.e[Head(p)], Tail(p))
IsPlace(g, p) == IF p = <<>> THEN FALSE ELSE Head(p) \in 1..Len(g) /\ Has(g[Head(p)], Tail(p))
RECURSIVE Sub(_, _)
Sub(t, p) == IF p = <<>> THEN t ELSE Sub(t.e[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, v) == IF p = <<>> THEN v ELSE [t EXCEPT !.e[Head(p)] = Put(t.e[Head(p)], Tail(p), v)]
Get(g, p) == Sub(g[Head(p)], Tail(p))
With(g, p, v) == [g EXCEPT ![Head(p)] = Put(g[Head(p)], Tail(p), v)]
Above(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p         \* q is inside p
Apart(p, q) == p # q /\ ~Above(p, q) /\ ~Above(q, p)
RECURSIVE Size(_)
RECURSIVE Sizes(_)
Size(t) == IF HasKids(t) THEN 1 + Sizes(t.e) ELSE 1
Sizes(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + Sizes(Tail(s))

(* ---- maps *)
Pos(k) == CHOOSE i \in 1..Len(Keys) : Keys[i] = k
KeyAt(t, k) == {i \in 1..Len(t.ks) : t.ks[i] = k}
Before(t, k) == IF Ordered THEN Len(t.ks) ELSE Cardinality({i \in 1..Len(t.ks) : Pos(t.ks[i]) < Pos(k)})
SetKey(t, k, v) ==
    IF KeyAt(t, k) # {} THEN [t EXCEPT !.e[CHOOSE i \in KeyAt(t, k) : TRUE] = v]
    ELSE LET b == Before(t, k)
             Ins(s, x) == SubSeq(s, 1, b) \o <<x>> \o SubSeq(s, b + 1, Len(s))
         IN  Map(Ins(t.ks, k), Ins(t.e, v))

Default(k) == CASE k = "arr" -> Arr(<<>>)
                [] k = "map" -> Map(<<>>, <<>>)
                [] k = "str" \/ k = "byt" -> Leaf(k, "")
                [] k = "uint" \/ k = "sint" \/ k = "sim" \/ k = "bool" -> Leaf(k, "0")
                [] k = "real" -> Leaf(k, "0000000000000000")
                [] k = "null" \/ k = "undef" -> Leaf(k, "")
                [] k = "tag" -> Tag("18446744073709551615", Empty)
Kinds == {"map", "arr", "str", "real", "sint", "uint", "bool", "null"} \cup (IF Lang = "cbor" THEN {"tag", "byt", "sim", "undef"} ELSE {})


(* ---- operations: o[1] names it, o[2] is the place it is done to, o[3] the place read (or what is stored), o[4] a key *)
Storing == {"set", "stm", "ctr"}
Copying == {"cpy", "cct", "cca", "val", "cst"}
Moving == {"mov", "mct", "mca", "vmv"}
Growing == {"psh", "psm", "wrp", "tag", "key"}
Unary == {"rst", "pop", "era"}
Binary == Copying \cup Moving \cup Growing \cup {"swp"}

Can(o, g) ==
    LET n == o[1]
        p == o[2]
        q == o[3]
        t == Get(g, p)
    IN  /\ IsPlace(g, p)
        /\ n \in Binary => IsPlace(g, q)
        /\ n \in {"imb", "val", "vmv"} => IF n = "imb" THEN t.k # "?" ELSE Get(g, q).k # "?"
        /\ n \in Moving \cup {"psm", "key"} => ~Above(q, p)   \* moving a node into a place inside itself has no meaning
        /\ n = "swp" => (p = q \/ Apart(p, q))
        /\ n \in {"psh", "psm"} => t.k = "arr"
        /\ n \in {"psm", "key"} => p # q
        /\ n = "key" => t.k = "map"
        /\ n = "tag" => Lang = "cbor"
        /\ n = "cst" => Get(g, q).k = "str"
        /\ n = "pop" => (t.k = "arr" /\ t.e # <<>>)
        /\ n = "era" => (t.k = "map" /\ t.e # <<>>)
Result(o, g) ==
    LET n == o[1]
        p == o[2]
        q == o[3]
        t == Get(g, p)
    IN  CASE n \in Storing -> With(g, p, Vals[q])
          [] n = "ini" -> With(g, p, Lists[q])
          [] n = "imb" -> IF t.k = q THEN g ELSE With(g, p, Default(q))
          [] n = "rst" -> With(g, p, Empty)
          [] n \in Copying -> With(g, p, Get(g, q))
          (* moving a node to itself leaves some value; through another one it is kept *)
          [] n \in Moving -> IF p = q THEN (IF n \in {"mct", "mca"} THEN g ELSE With(g, p, Unknown))
                             ELSE IF Above(p, q) THEN With(g, p, Get(g, q))
                             ELSE With(With(g, q, Unknown), p, Get(g, q))
          [] n = "swp" -> With(With(g, p, Get(g, q)), q, t)
          [] n = "psh" -> With(g, p, Arr(Append(t.e, Get(g, q))))
          [] n = "psm" -> LET h == With(g, q, Unknown) IN With(h, p, Arr(Append(Get(h, p).e, Get(g, q))))
          [] n = "wrp" -> With(g, p, Arr(<<Get(g, q)>>))
          [] n = "tag" -> With(g, p, Tag("5", Get(g, q)))
          [] n = "key" -> With(g, p, SetKey(t, o[4], Get(g, q)))
          [] n = "pop" -> With(g, p, Arr(SubSeq(t.e, 1, Len(t.e) - 1)))
          [] n = "era" -> With(g, p, Map(Tail(t.ks), Tail(t.e)))
Small(g) == \A r \in 1..Len(g) : Size(g[r]) <= MaxSize

Do(o) == /\ Can(o, regs) = TRUE /\ Small(Result(o, regs)) = TRUE
         /\ regs' = Result(o, regs) /\ hist' = Append(hist, o)
Init == /\ regs \in {Inits[i] : i \in 1..Len(Inits)}
        /\ hist = <<regs>>
Next == /\ Len(hist) <= Depth
        /\ \E p \in Places(regs) :
              \/ \E n \in Ops \cap Storing, i \in 1..Len(Vals) : Do(<<n, p, i>>)
              \/ "ini" \in Ops /\ \E i \in 1..Len(Lists) : Do(<<"ini", p, i>>)
              \/ "imb" \in Ops /\ \E k \in Kinds : Do(<<"imb", p, k>>)
              \/ \E n \in Ops \cap Unary : Do(<<n, p, p>>)
              \/ \E q \in Places(regs), n \in Ops \cap (Binary \ {"key"}) : Do(<<n, p, q>>)
              \/ "key" \in Ops /\ \E q \in Places(regs), i \in 1..Len(Keys) : Do(<<"key", p, q, Keys[i]>>)
Spec == Init /\ [][Next]_vars

(* ---- properties of the specification itself *)
RECURSIVE Well(_)
Well(t) == /\ t.k \in Kinds \cup {"?"}
           /\ HasKids(t) => \A i \in 1..Len(t.e) : Well(t.e[i])
           /\ t.k = "map" => /\ Len(t.ks) = Len(t.e)
                             /\ \A i, j \in 1..Len(t.ks) : t.ks[i] = t.ks[j] => i = j
                             /\ ~Ordered => \A i \in 1..Len(t.ks) : \A j \in 1..(i - 1) : Pos(t.ks[j]) < Pos(t.ks[i])
           /\ t.k = "tag" => Len(t.e) = 1
TypeOK == \A r \in 1..Len(regs) : Well(regs[r])
(* an operation touches nothing but the registers it names; a copy leaves its source as it was *)
Frame == [][LET o == hist'[Len(hist')]
                named == {o[2][1]} \cup (IF o[1] \in Moving \cup {"swp", "psm"} THEN {o[3][1]} ELSE {})
            IN  \A r \in 1..Len(regs) : r \in named \/ regs'[r] = regs[r]]_vars
Out == Len(hist) = 1 \/ PrintT(ToJson(<<"H", hist, regs>>))
=============================================================================
