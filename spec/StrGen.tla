------------------------------- MODULE StrGen -------------------------------
(* The environment of JsonGen for documents that are one string: for every  *)
(* accepted one the denoted text is printed in all three encodings.         *)
EXTENDS JsonGen, Text

StrOf(z) == IF z.m = "done" /\ Len(z.ev) = 1 /\ z.ev[1][1] = "s"
            THEN LET cs == Codes(z.ev[1][2]) IN <<z.ev[1][2], Utf16(cs), cs>> ELSE <<>>
(* the three encodings agree *)
Agree(z) == LET t == StrOf(z) IN t # <<>> => Utf8Of(t[3]) = t[1]
OutStr ==
    LET z == JEof(s) c == Complete(s, inp, 400) IN
    /\ Agree(z) /\ Agree(c[1])
    /\ PrintT(ToJson(<<"R", inp, z.m, z.n, StrOf(z)>>))
    /\ Terminal(s) \/ PrintT(ToJson(<<"R", c[2], c[1].m, c[1].n, StrOf(c[1])>>))
=============================================================================
