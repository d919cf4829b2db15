------------------------------ MODULE TypedRun ------------------------------
(* The same over a corpus: lines [t, document] with t = 0 for all types *)
EXTENDS Typed, TLC, Json
CONSTANTS Types_
Corpus == ndJsonDeserialize("corpus.ndjson")
VARIABLES d, s
Init == d \in 1..Len(Corpus) /\ s = JInit
Next == ~Terminal(s) /\ s' = JEof(JFeed(s, Corpus[d][2], 1)) /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, s>>
Meaning(t, z) ==
    IF z.m # "done" THEN <<>>
    ELSE IF t > 0 THEN LET v == Tree(z.ev) IN << <<t, Denote(Types_[t], v), InOrder(Types_[t], v)>> >>
    ELSE LET v == Tree(z.ev) IN SelectSeq([i \in 1..Len(Types_) |-> <<i, Denote(Types_[i], v)>>], LAMBDA p : ~Bad(p[2]))
Out == Terminal(s) => PrintT(ToJson(<<"R", d, s.m, s.n, Meaning(Corpus[d][1], s)>>))
Sane == JTypeOK(s) /\ JBalanced(s)
=============================================================================
