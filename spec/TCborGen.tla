------------------------------ MODULE TCborGen ------------------------------
(* CborGen's environment; prints what each item means to each type *)
EXTENDS TypedCbor, TLC, Json
CONSTANTS Prefixes, Tokens, MaxTok, Types_
VARIABLES s, inp, k
G == INSTANCE CborGen
Spec == G!Spec
Meaning(z) == IF z.m # "done" THEN <<>>
              ELSE LET t == CTree(z.ev) IN
                   SelectSeq([i \in 1..Len(Types_) |-> <<i, Mean(Types_[i], t)>>], LAMBDA p : ~Bad(p[2]))
Out ==
    /\ LET z == CEof(s) IN PrintT(ToJson(<<"R", inp, Phase(z), z.n, Meaning(z)>>))
    /\ Terminal(s) \/ LET c == G!Complete(s, inp, 24) IN
                      c[1].m = "done" => PrintT(ToJson(<<"R", c[2], c[1].m, c[1].n, Meaning(c[1])>>))
Sane == G!Sane
(* a tag in front of an item never changes what it means, a truncated item means nothing *)
TagBlind == LET z == CEof(s) IN z.m = "done" =>
    LET t == CTree(z.ev) IN
    \A i \in 1..Len(Types_) : LET a == Mean(Types_[i], t)
                                  b == Mean(Types_[i], <<"t", <<1>>, t>>) IN b[1] = "*" \/ a = b
=============================================================================
