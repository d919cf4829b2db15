------------------------------ MODULE CborGen ------------------------------
(* Exhaustive environment of the item machine: every given prefix followed  *)
(* by every sequence of at most MaxTok tokens; prints the outcome of every  *)
(* input so reached, as it stands and completed by the shortest             *)
(* continuation.                                                            *)
EXTENDS CborItem, TLC, Json
CONSTANTS Prefixes, Tokens, MaxTok
VARIABLES s, inp, k
vars == <<s, inp, k>>
Init ==
    /\ k = 0
    /\ inp \in {Prefixes[i] : i \in 1..Len(Prefixes)}
    /\ s = CFeed(CInit, inp, 1)
Feed(t) ==
    /\ k < MaxTok
    /\ ~Terminal(s) \/ (s.m = "done" /\ s.n = Len(inp))
    /\ inp' = inp \o Tokens[t]
    /\ s' = CFeed(s, Tokens[t], 1)
    /\ k' = k + 1
Next == \E t \in 1..Len(Tokens) : Feed(t)
Spec == Init /\ [][Next]_vars

NextByte(z) ==
    CASE z.m = "arg" -> IF z.mj = 7 /\ z.aw = 1 /\ z.ab = <<>> THEN 32 ELSE 0
      [] z.m = "str" -> 97
      [] z.m = "head" -> IF Top(z)[1] \in {"*", "k", "b", "s"} THEN 255 ELSE 0
RECURSIVE Complete(_, _, _)
Complete(z, bs, fuel) ==
    IF Terminal(z) \/ fuel = 0 \/ (z.m = "head" /\ z.stk = <<>>) THEN <<z, bs>>
    ELSE LET b == NextByte(z) IN Complete(CStep(z, b), Append(bs, b), fuel - 1)

Out ==
    /\ LET z == CEof(s) IN PrintT(ToJson(<<"R", inp, z.m, z.n, z.ev, z.r>>))
    /\ Terminal(s) \/ LET c == Complete(s, inp, 24)
                          z == CEof(c[1]) IN
                      PrintT(ToJson(<<"R", c[2], z.m, z.n, z.ev, z.r>>))
Sane == CTypeOK(s) /\ CBalanced(s) /\ s.n <= Len(inp)
Monotone == [][ s'.n >= s.n /\ Len(s'.ev) >= Len(s.ev) /\ SubSeq(s'.ev, 1, Len(s.ev)) = s.ev ]_vars
=============================================================================
