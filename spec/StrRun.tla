------------------------------- MODULE StrRun -------------------------------
(* JsonRun for documents that are one string: prints the denoted text too *)
EXTENDS JsonText, Text, TLC, Json
Corpus == ndJsonDeserialize("corpus.ndjson")
VARIABLES d, s
vars == <<d, s>>
Init == d \in 1..Len(Corpus) /\ s = JInit
Next == ~Terminal(s) /\ s' = JEof(JFeed(s, Corpus[d], 1)) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
StrOf(z) == IF z.m = "done" /\ Len(z.ev) = 1 /\ z.ev[1][1] = "s"
            THEN LET cs == Codes(z.ev[1][2]) IN <<z.ev[1][2], Utf16(cs), cs>> ELSE <<>>
Out == Terminal(s) => PrintT(ToJson(<<"R", d, s.m, s.n, StrOf(s)>>))
Sane == JTypeOK(s) /\ JBalanced(s)
=============================================================================
