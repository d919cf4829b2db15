----------------------------- MODULE CodePoints -----------------------------
(* Every Unicode scalar value, written raw and as an escape (both hex       *)
(* cases), alone and between other characters, must denote itself; every    *)
(* surrogate written either way must be refused.  Sweeps the code points    *)
(* From, From+Step, ... To and prints the documents with the denoted text.  *)
EXTENDS JsonText, Text, TLC, Json

CONSTANTS Ranges      \* sequence of <<from, to, step>>
VARIABLES r, c
vars == <<r, c>>
Init == r \in 1..Len(Ranges) /\ c = Ranges[r][1]
Next == c + Ranges[r][3] <= Ranges[r][2] /\ c' = c + Ranges[r][3] /\ UNCHANGED r
Spec == Init /\ [][Next]_vars

Quote(bs) == <<34>> \o bs \o <<34>>
Raw  == Utf8(c)
EscL == EscapeOf(c, HexDigit)
EscU == EscapeOf(c, HexDigitU)
Doc(bs, ok) ==
    LET z == JRun(Quote(bs)) IN
    /\ (z.m = "done") = ok
    /\ ok => z.ev = << <<"s", Raw>> >> /\ z.n = Len(bs) + 2
    /\ PrintT(ToJson(<<"R", Quote(bs), z.m, z.n, IF ok THEN <<Raw, Utf16Of(c), <<c>> >> ELSE <<>> >>))
Out ==
    /\ c \in {34, 92} \/ Doc(Raw, ~Surrogate(c) /\ c >= 32)
    /\ Doc(EscL, ~Surrogate(c))
    /\ EscU = EscL \/ Doc(EscU, ~Surrogate(c))
=============================================================================
