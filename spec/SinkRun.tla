------------------------------- MODULE SinkRun -------------------------------
(* Judges recorded writings: for one output, its outcome in destinations of *)
(* every capacity.  Rows: <<length, << <<capacity, ok, count, equal bytes,  *)
(* touched outside, failure reported as such>>, ... >> >>; a capacity of -1 *)
(* is a destination that never refuses.                                     *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES d, k
Rows == ndJsonDeserialize("corpus.ndjson")
S == INSTANCE Sink WITH MaxLen <- 0, MaxCap <- 0, len <- 0, cap <- 0, pos <- 0, out <- <<>>, st <- ""
Init == d \in 1..Len(Rows) /\ k = 1
Next == k < Len(Rows[d][2]) /\ k' = k + 1 /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, k>>
Bad == LET r == Rows[d][2][k]
           n == Rows[d][1]
           c == IF r[1] < 0 THEN n ELSE r[1]
       IN  ~ S!Allowed(n, c, r[2], r[3], r[4], r[5]) \/ (~r[2] /\ ~r[6])
Out == ~Bad \/ PrintT(ToJson(<<"B", d, k>>))
Seen == k < Len(Rows[d][2]) \/ PrintT(ToJson(<<"D", d>>))
=============================================================================
