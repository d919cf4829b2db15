------------------------------ MODULE TypedGen ------------------------------
(* JsonGen's environment; prints what each document means to each type *)
EXTENDS Typed, TLC, Json
CONSTANTS Prefixes, Tokens, MaxTok, Types_
VARIABLES s, inp, k
G == INSTANCE JsonGen
Spec == G!Spec
Meaning(z) == LET t == IF z.m = "done" THEN Tree(z.ev) ELSE <<"!">> IN
              IF z.m # "done" THEN <<>>
              ELSE SelectSeq([i \in 1..Len(Types_) |-> <<i, Denote(Types_[i], t)>>], LAMBDA p : ~Bad(p[2]))
Out ==
    /\ LET z == JEof(s) IN PrintT(ToJson(<<"R", inp, z.m, z.n, Meaning(z)>>))
    /\ Terminal(s) \/ LET c == G!Complete(s, inp, 400) IN
                      c[1].m = "done" => PrintT(ToJson(<<"R", c[2], c[1].m, c[1].n, Meaning(c[1])>>))
Sane == G!Sane
(* an object read as a map lists at most as many members as it has keys, a  *)
(* set at most as many elements as the list                                  *)
Bounded == LET z == JEof(s) IN z.m = "done" =>
    \A i \in 1..Len(Types_) : LET r == Denote(Types_[i], Tree(z.ev)) IN
        r[1] \in {"M", "S"} => Len(r[2]) <= Len(Tree(z.ev)[2])
=============================================================================
