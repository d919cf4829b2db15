------------------------------- MODULE NumGen -------------------------------
(* every sequence of tokens after every prefix, read by a signed, an        *)
(* unsigned and a floating-point target side by side                        *)
EXTENDS NumText, TLC, Json
CONSTANTS Prefixes, Tokens, MaxTok
VARIABLES a, b, c, inp, k
vars == <<a, b, c, inp, k>>
Init == /\ inp \in {Prefixes[i] : i \in 1..Len(Prefixes)} /\ k = 0
        /\ a = NFeed(NInit("s"), inp, 1) /\ b = NFeed(NInit("u"), inp, 1) /\ c = NFeed(NInit("r"), inp, 1)
Live == ~NTerminal(a) \/ ~NTerminal(b) \/ ~NTerminal(c)
Next == \E t \in 1..Len(Tokens) :
        /\ k < MaxTok /\ Live
        /\ k' = k + 1 /\ inp' = inp \o Tokens[t]
        /\ a' = NFeed(a, Tokens[t], 1) /\ b' = NFeed(b, Tokens[t], 1) /\ c' = NFeed(c, Tokens[t], 1)
Spec == Init /\ [][Next]_vars
Show(z) == LET s == NEof(z) IN <<s.m, s.n, TextOf(s), Types(s)>>
Out == PrintT(ToJson(<<"R", inp, Show(a), Show(b), Show(c)>>))
(* an unsigned target reads what a signed one does, when there is no sign; *)
(* a floating-point target agrees on the integers                          *)
Agree == LET x == NEof(a) y == NEof(b) z == NEof(c) IN
    /\ y.m = "done" => x.m = "done" /\ x.n = y.n /\ x.buf = y.buf
    /\ z.m = "done" /\ Len(z.j.ev) = 1 /\ z.j.ev[1][1] \in {"u", "i"} => x.m = "done" /\ x.n = z.n /\ x.buf = TextOf(z)
Sane == NSane(NEof(a)) /\ NSane(NEof(b)) /\ Agree
=============================================================================
