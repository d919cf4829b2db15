------------------------------ MODULE JsonRun ------------------------------
(* The same machine run over a corpus of byte strings (file "corpus.ndjson",*)
(* one array of bytes per line): one transition per byte, one behaviour per *)
(* document; prints the outcome of each.                                    *)
EXTENDS JsonText, TLC, Json

Corpus == ndJsonDeserialize("corpus.ndjson")
N == Len(Corpus)

VARIABLES d, p, s
vars == <<d, p, s>>

Init == d \in 1..N /\ p = 0 /\ s = JInit
Byte ==
    /\ ~Terminal(s) /\ p < Len(Corpus[d])
    /\ p' = p + 1
    /\ s' = JStep(s, Corpus[d][p + 1])
    /\ UNCHANGED d
End ==
    /\ ~Terminal(s) /\ p = Len(Corpus[d])
    /\ p' = p + 1
    /\ s' = JEof(s)
    /\ UNCHANGED d
Next == Byte \/ End
Spec == Init /\ [][Next]_vars

Out == Terminal(s) => PrintT(ToJson(<<"R", d, s.m, s.n, s.ev, s.r>>))
Sane == JTypeOK(s) /\ JBalanced(s)
=============================================================================
