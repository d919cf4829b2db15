------------------------------ MODULE TidyGen ------------------------------
(* The reader machine and the printing machine, both fed with every sequence*)
(* of tokens; every complete text so reached is printed with its layout.    *)
EXTENDS JsonText, TLC, Json

CONSTANTS Prefixes, Tokens, MaxTok, Tab, Pad
P == INSTANCE Tidy

VARIABLES s, t, inp, k
vars == <<s, t, inp, k>>

(* the input is one JSON text *)
Whole == LET z == JEof(s) IN z.m = "done" /\ \A i \in (z.n + 1)..Len(inp) : inp[i] \in {9, 10, 13, 32}
Init ==
    /\ k = 0
    /\ inp \in {Prefixes[i] : i \in 1..Len(Prefixes)}
    /\ s = JFeed(JInit, inp, 1)
    /\ t = P!PFeed(P!PInit, inp, 1)
Feed(x) ==
    /\ k < MaxTok
    /\ ~Terminal(s) \/ Whole
    /\ inp' = inp \o Tokens[x]
    /\ s' = JFeed(s, Tokens[x], 1)
    /\ t' = P!PFeed(t, Tokens[x], 1)
    /\ k' = k + 1
Next == \E x \in 1..Len(Tokens) : Feed(x)
Spec == Init /\ [][Next]_vars

Out == Whole => PrintT(ToJson(<<"P", inp, t.w>>))
(* the laws *)
Depth == ~Terminal(s) /\ s.m # "err" => t.lv = Len(s.stk)
Same == Whole => LET a == JEof(s) b == JRun(t.w) IN b.m = "done" /\ b.ev = a.ev
Fixed == Whole => P!PRun(t.w) = t.w
Only == Whole => P!Bare(t.w, 1, "out") = P!Bare(inp, 1, "out")
Laid == Whole => P!LaidOut(t.w)
=============================================================================
