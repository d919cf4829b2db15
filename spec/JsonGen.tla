------------------------------ MODULE JsonGen ------------------------------
(* Exhaustive environment of the reader machine.  Starting from every given *)
(* prefix it feeds every sequence of at most MaxTok tokens and prints, for  *)
(* replay into the library, the outcome of every input so reached: of the   *)
(* input as it stands (its end included) and of the input completed by the  *)
(* shortest continuation that the machine knows.                            *)
EXTENDS JsonText, TLC, Json

CONSTANTS Prefixes, Tokens, MaxTok

VARIABLES s, inp, k
vars == <<s, inp, k>>

Init ==
    /\ k = 0
    /\ inp \in {Prefixes[i] : i \in 1..Len(Prefixes)}
    /\ s = JFeed(JInit, inp, 1)
(* one token more is fed after the document is complete: what follows the   *)
(* text must not matter                                                     *)
Feed(t) ==
    /\ k < MaxTok
    /\ ~Terminal(s) \/ (s.m = "done" /\ s.n = Len(inp))
    /\ inp' = inp \o Tokens[t]
    /\ s' = JFeed(s, Tokens[t], 1)
    /\ k' = k + 1
Next == \E t \in 1..Len(Tokens) : Feed(t)
Spec == Init /\ [][Next]_vars

(* a byte that leads one step closer to a complete document *)
NextByte(z) ==
    CASE z.m \in {"val", "arrv"} -> 48
      [] z.m = "arr0" -> 93
      [] z.m = "obj0" -> 125
      [] z.m = "str" -> 34
      [] z.m = "bare" -> 0
      [] z.m = "objk" -> IF Opt.key = "u" THEN 97 ELSE 34
      [] z.m = "ukey" -> Opt.div
      [] z.m = "colon" -> Opt.div
      [] z.m \in {"sep", "nz", "ni", "nf", "ne"} ->
            IF z.stk = <<>> THEN 32 ELSE IF z.k THEN Opt.div ELSE IF z.stk = <<"t">> THEN 0 ELSE IF IsList(z.stk[Len(z.stk)]) THEN 93 ELSE 125
      [] z.m = "u8" -> z.lb
      [] z.m = "esc" -> 110
      [] z.m = "u0" -> IF z.hi = 0 THEN 48 ELSE 68
      [] z.m = "u1" -> IF z.hi = 0 THEN 48 ELSE 99
      [] z.m \in {"u2", "u3"} -> 48
      [] z.m = "hi1" -> 92
      [] z.m = "hi2" -> 117
      [] z.m = "lit" -> Lits[z.r][z.x + 1]
      [] z.m = "n-" -> 48
      [] z.m = "nf0" -> 53
      [] z.m \in {"ne0", "nes"} -> 49
      [] z.m = "c/" -> 42
      [] z.m = "c*" -> 42
      [] z.m = "c*2" -> 47
      [] z.m = "cl" -> 10
RECURSIVE Complete(_, _, _)
Complete(z, bs, fuel) ==
    IF Terminal(z) \/ fuel = 0 THEN <<z, bs>>
    ELSE LET b == NextByte(z) IN Complete(JStep(z, b), Append(bs, b), fuel - 1)

Out ==
    /\ LET z == JEof(s) IN PrintT(ToJson(<<"R", inp, z.m, z.n, z.ev, z.r>>))
    /\ Terminal(s) \/ LET c == Complete(s, inp, 400) IN
                      PrintT(ToJson(<<"R", c[2], c[1].m, c[1].n, c[1].ev, c[1].r>>))
Sane == JTypeOK(s) /\ JBalanced(s) /\ s.n <= Len(inp)
(* consumption is monotone and events are only ever appended *)
Monotone == [][ s'.n >= s.n /\ Len(s'.ev) >= Len(s.ev) /\ SubSeq(s'.ev, 1, Len(s.ev)) = s.ev ]_vars
=============================================================================
