------------------------------ MODULE TidyRun ------------------------------
(* Both machines over a corpus: every line one text.                        *)
EXTENDS JsonText, TLC, Json

CONSTANTS Tab, Pad
P == INSTANCE Tidy
Corpus == ndJsonDeserialize("corpus.ndjson")

VARIABLES d, x, s, t
vars == <<d, x, s, t>>
Init == d \in 1..Len(Corpus) /\ x = 0 /\ s = JInit /\ t = P!PInit
Piece == 64
Next ==
    /\ x < Len(Corpus[d])
    /\ LET n == IF x + Piece > Len(Corpus[d]) THEN Len(Corpus[d]) ELSE x + Piece
           bs == SubSeq(Corpus[d], x + 1, n) IN
       x' = n /\ s' = JFeed(s, bs, 1) /\ t' = P!PFeed(t, bs, 1)
    /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Whole == x = Len(Corpus[d]) /\ (LET z == JEof(s) IN z.m = "done" /\ \A i \in (z.n + 1)..x : Corpus[d][i] \in {9, 10, 13, 32})
Out == x = Len(Corpus[d]) => PrintT(ToJson(IF Whole THEN <<"P", d, t.w>> ELSE <<"P", d>>))
Same == Whole => LET a == JEof(s) b == JRun(t.w) IN b.m = "done" /\ b.ev = a.ev
Fixed == Whole => P!PRun(t.w) = t.w
=============================================================================
