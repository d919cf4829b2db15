------------------------------ MODULE CborRun ------------------------------
(* The machine over a corpus of byte strings, one transition per byte *)
EXTENDS CborItem, TLC, Json
Corpus == ndJsonDeserialize("corpus.ndjson")
VARIABLES d, p, s
vars == <<d, p, s>>
Init == d \in 1..Len(Corpus) /\ p = 0 /\ s = CInit
Byte ==
    /\ ~Terminal(s) /\ p < Len(Corpus[d])
    /\ p' = p + 1
    /\ s' = CStep(s, Corpus[d][p + 1])
    /\ UNCHANGED d
End ==
    /\ ~Terminal(s) /\ p = Len(Corpus[d])
    /\ p' = p + 1
    /\ s' = CEof(s)
    /\ UNCHANGED d
Next == Byte \/ End
Spec == Init /\ [][Next]_vars
Out == Terminal(s) => PrintT(ToJson(<<"R", d, s.m, s.n, s.ev, s.r, Shortest(s.ev)>>))
Sane == CTypeOK(s) /\ CBalanced(s)
=============================================================================
