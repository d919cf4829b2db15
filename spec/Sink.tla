-------------------------------- MODULE Sink --------------------------------
(* A writer hands its output over in pieces; a destination takes a piece    *)
(* whole, takes what fits of it, or drops what does not fit and tells       *)
(* afterwards.  A piece that is refused ends the writing.                   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, MaxCap
VARIABLES len,      \* of the whole output
          cap,      \* of the destination
          pos,      \* handed over so far
          out,      \* what the destination holds
          st        \* "writing", "ok", "failed"
vars == <<len, cap, pos, out, st>>

Full == [i \in 1..len |-> i]            \* the output, each byte its own
Piece(k) == SubSeq(Full, pos + 1, pos + k)
Room == cap - Len(out)

Init == /\ len \in 0..MaxLen /\ cap \in 0..MaxCap
        /\ pos = 0 /\ out = <<>> /\ st = "writing"

Take(k) == /\ st = "writing" /\ pos + k <= len
           /\ k <= Room
           /\ out' = out \o Piece(k) /\ pos' = pos + k
           /\ UNCHANGED <<len, cap, st>>
(* j bytes of the refused piece may have been taken *)
Refuse(k, j) == /\ st = "writing" /\ pos + k <= len
                /\ k > Room /\ j <= Room
                /\ out' = out \o SubSeq(Full, pos + 1, pos + j) /\ st' = "failed"
                /\ UNCHANGED <<len, cap, pos>>
Finish == /\ st = "writing" /\ pos = len
          /\ st' = "ok" /\ UNCHANGED <<len, cap, pos, out>>
Next == \/ \E k \in 1..(MaxLen + 1) : Take(k) \/ (\E j \in 0..MaxCap : Refuse(k, j))
        \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the outcome of writing len bytes to a destination of capacity cap *)
Allowed(ln, cp, ok, n, same, touched) ==
    /\ ~touched
    /\ same = n                                 \* a prefix of the output
    /\ n <= cp
    /\ ok <=> ln <= cp
    /\ ok => n = ln

Bounded == Len(out) <= cap
Prefix == \A i \in 1..Len(out) : out[i] = Full[i]
Outcome == st # "writing" => Allowed(len, cap, st = "ok", Len(out), Len(out), FALSE)
(* every allowed outcome is one of some writer and destination: the terminal states are printed and compared *)
Out == st = "writing" \/ PrintT(ToJson(<<"R", len, cap, st = "ok", Len(out)>>))
Ends == <>(st # "writing")
=============================================================================
