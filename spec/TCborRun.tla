------------------------------ MODULE TCborRun ------------------------------
(* The same over a corpus: lines [t, item] with t = 0 for all types *)
EXTENDS TypedCbor, TLC, Json
CONSTANTS Types_
Corpus == ndJsonDeserialize("corpus.ndjson")
VARIABLES d, s
Init == d \in 1..Len(Corpus) /\ s = CInit
Next == ~Terminal(s) /\ s' = CEof(CFeed(s, Corpus[d][2], 1)) /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, s>>
Meaning(t, z) ==
    IF z.m # "done" THEN <<>>
    ELSE LET v == CTree(z.ev) IN
         IF t > 0 THEN << <<t, Mean(Types_[t], v), COrdered(Types_[t], v), Shortest(z.ev)>> >>
         ELSE SelectSeq([i \in 1..Len(Types_) |-> <<i, Mean(Types_[i], v)>>], LAMBDA p : ~Bad(p[2]))
Out == Terminal(s) => PrintT(ToJson(<<"R", d, Phase(s), s.n, Meaning(Corpus[d][1], s)>>))
Sane == CTypeOK(s) /\ CBalanced(s)
=============================================================================
