------------------------------ MODULE StoreRun ------------------------------
(* The ledger over recorded histories of calls.  One row per history:       *)
(* <<events, wanted>>, an event being                                       *)
(*   <<"A", id, size, n>>  n units of size were obtained                    *)
(*   <<"F", id, size, n>>  they were given back                             *)
(*   <<"E", owned>>        the call ended, the target holding blocks owned  *)
(*                         <<id, size>>, one for every pointer it has       *)
(*   <<"Z", ids>>          the target is gone, but for what plain pointers  *)
(*                         hold                                             *)
(* and anything else something that no call may do; wanted are the numbers  *)
(* of units that the target must hold in the end: one list, none if unknown.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Corpus == ndJsonDeserialize("corpus.ndjson")

VARIABLES d, i, live, over
vars == <<d, i, live, over>>
Rng(s) == {s[n] : n \in 1..Len(s)}
Ids(l) == {b[1] : b \in l}

Init == d \in 1..Len(Corpus) /\ i = 0 /\ live = {} /\ over = FALSE
Ev == Corpus[d][1][i + 1]
More == i < Len(Corpus[d][1])
Obtain == Ev[1] = "A" /\ ~over /\ Ev[2] \notin Ids(live) /\ live' = live \cup {Tail(Ev)} /\ UNCHANGED over
Return == Ev[1] = "F" /\ Tail(Ev) \in live /\ live' = live \ {Tail(Ev)} /\ UNCHANGED over
Sum(l, n) == Cardinality({b \in l : b[3] = n})
Wants(w, n) == Cardinality({k \in 1..Len(w) : w[k] = n})
End ==
    /\ Ev[1] = "E" /\ ~over /\ over' = TRUE /\ UNCHANGED live
    /\ Cardinality(Rng(Ev[2])) = Len(Ev[2]) /\ Cardinality({b[1] : b \in Rng(Ev[2])}) = Len(Ev[2])
    /\ {<<b[1], b[2]>> : b \in live} = Rng(Ev[2])
    /\ \A w \in Rng(Corpus[d][2]) : \A n \in {b[3] : b \in live} \cup Rng(w) : Sum(live, n) = Wants(w, n)
Gone == Ev[1] = "Z" /\ over /\ Ids(live) = Rng(Ev[2]) /\ UNCHANGED <<live, over>>
Step == More /\ (Obtain \/ Return \/ End \/ Gone) /\ i' = i + 1 /\ UNCHANGED d
Next == Step
Spec == Init /\ [][Next]_vars
Out == IF More THEN (~ENABLED Step) => PrintT(ToJson(<<"V", d, i + 1>>)) ELSE PrintT(ToJson(<<"V", d, 0>>))
=============================================================================
