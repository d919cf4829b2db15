---------------------------- MODULE JsonConserve ----------------------------
(* Two readers in lockstep, one of plain JSON and one of JSON with features *)
(* switched on: a feature never changes what plain JSON texts mean, and     *)
(* what the plain reader refuses the other one refuses at the same byte     *)
(* unless it is told apart by a feature.                                    *)
EXTENDS Naturals, Sequences
CONSTANTS Plain, More, Tokens, Prefixes, MaxTok
P == INSTANCE JsonText WITH Opt <- Plain
F == INSTANCE JsonText WITH Opt <- More
VARIABLES p, f, k
Init == \E i \in 1..Len(Prefixes) : p = P!JFeed(P!JInit, Prefixes[i], 1) /\ f = F!JFeed(F!JInit, Prefixes[i], 1) /\ k = 0
Next == /\ k < MaxTok /\ ~P!Terminal(p)
        /\ k' = k + 1
        /\ \E t \in 1..Len(Tokens) : p' = P!JFeed(p, Tokens[t], 1) /\ f' = F!JFeed(f, Tokens[t], 1)
Spec == Init /\ [][Next]_<<p, f, k>>
(* as long as the plain reader has not refused anything the two are in the  *)
(* same state                                                               *)
Conservative == /\ p.m # "err" => f = p
                /\ P!JEof(p).m = "done" => F!JEof(f) = P!JEof(p)
(* a feature only ever adds texts *)
Extends == p.m = "err" => f.n >= p.n
=============================================================================
