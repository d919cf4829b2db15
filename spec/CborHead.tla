------------------------------ MODULE CborHead ------------------------------
(* The item machine stopped behind the first head that a byte string starts *)
(* with: what follows, and whether the head is the shortest one.  Used for  *)
(* strings and containers too long to be taken byte by byte.                *)
EXTENDS CborItem, TLC, Json
Corpus == ndJsonDeserialize("corpus.ndjson")
VARIABLES d, p, s
vars == <<d, p, s>>
Init == d \in 1..Len(Corpus) /\ p = 0 /\ s = CInit
Behind == p > 0 /\ s.m # "arg"
Byte ==
    /\ ~Behind /\ p < Len(Corpus[d])
    /\ p' = p + 1
    /\ s' = CStep(s, Corpus[d][p + 1])
    /\ UNCHANGED d
Spec == Init /\ [][Byte]_vars
Out == (Behind \/ p = Len(Corpus[d])) => PrintT(ToJson(<<"R", d, s.m, s.n, s.left, s.stk, IF s.m = "str" THEN s.fl ELSE IF Shortest(s.ev) THEN 1 ELSE 0>>))
Sane == CTypeOK(s) /\ CBalanced(s)
=============================================================================
