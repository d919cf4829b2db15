------------------------------ MODULE NodeGen ------------------------------
(* Inputs of a dynamic value under several limits at once: one machine per  *)
(* limit, fed in lockstep.  Prints every input so reached, as it stands and *)
(* completed, with the outcome under every limit.                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS F, Os,        \* "j" or "c"; options of the machines, the first without a limit
          Prefixes, Tokens, MaxTok
J(o) == INSTANCE JsonText WITH Opt <- o
C(o) == INSTANCE CborItem WITH Opt <- o
Over(s) == s.m \in {"done", "err"}
Feed(o, s, bs) == IF F = "j" THEN J(o)!JFeed(s, bs, 1) ELSE C(o)!CFeed(s, bs, 1)
End(o, s) == IF F = "j" THEN J(o)!JEof(s) ELSE C(o)!CEof(s)
Start(o) == IF F = "j" THEN J(o)!JInit ELSE C(o)!CInit
Res(s) == IF s.m = "done" THEN "ok" ELSE IF s.r = "depth" THEN "depth" ELSE "err"
VARIABLES s, inp, k
vars == <<s, inp, k>>
Init ==
    /\ k = 0
    /\ inp \in {Prefixes[i] : i \in 1..Len(Prefixes)}
    /\ s = [i \in 1..Len(Os) |-> Feed(Os[i], Start(Os[i]), inp)]
Next == \E t \in 1..Len(Tokens) :
    /\ k < MaxTok
    /\ ~Over(s[1])
    /\ inp' = inp \o Tokens[t]
    /\ s' = [i \in 1..Len(Os) |-> IF Over(s[i]) THEN s[i] ELSE Feed(Os[i], s[i], Tokens[t])]
    /\ k' = k + 1
Spec == Init /\ [][Next]_vars

(* what closes what is open *)
JRest(z) ==
    CASE z.m \in {"val", "arrv"} -> <<49>>
      [] z.m = "objk" -> <<34, 99, 34, 58, 49>>
      [] z.m = "colon" -> <<58>>
      [] z.m \in {"arr0", "obj0", "sep", "nz", "ni"} /\ z.stk # <<>> ->
            <<IF z.stk[Len(z.stk)] \in {"a", "A"} THEN 93 ELSE 125>>
      [] OTHER -> <<>>
CRest(z) ==
    CASE z.m = "arg" -> <<0>>
      [] z.m = "str" -> <<97>>
      [] z.m = "head" -> IF z.stk # <<>> /\ z.stk[Len(z.stk)][1] \in {"*", "k", "b", "s"} THEN <<255>> ELSE <<0>>
      [] OTHER -> <<>>
Rest(z) == IF F = "j" THEN JRest(z) ELSE CRest(z)
RECURSIVE Complete(_, _, _)
Complete(z, bs, fuel) ==
    IF Over(z) \/ fuel = 0 \/ Rest(z) = <<>> THEN bs
    ELSE Complete(Feed(Os[1], z, Rest(z)), bs \o Rest(z), fuel - 1)
Outcomes(bs) == [i \in 1..Len(Os) |-> Res(End(Os[i], Feed(Os[i], Start(Os[i]), bs)))]

Out ==
    /\ LET z == End(Os[1], s[1]) IN
       PrintT(ToJson(<<"R", inp, [i \in 1..Len(Os) |-> Res(End(Os[i], s[i]))], IF z.m = "done" THEN z.ev ELSE <<>> >>))
    /\ LET bs == Complete(s[1], inp, 16)
           z == End(Os[1], Feed(Os[1], Start(Os[1]), bs)) IN
       bs # inp => PrintT(ToJson(<<"R", bs, Outcomes(bs), IF z.m = "done" THEN z.ev ELSE <<>> >>))

(* the limits are nested: what one admits a greater one admits, and one that *)
(* nothing reaches changes nothing                                           *)
Deep(i) == s[i].r = "depth" /\ s[i].m = "err"
Nested ==
    \A i \in 2..Len(Os) : \A j \in 2..Len(Os) :
        Os[i].dep <= Os[j].dep => (Deep(j) => Deep(i)) /\ (~Deep(i) => s[i] = s[j])
Exact ==
    \A i \in 2..Len(Os) : IF Deep(i) THEN TRUE ELSE s[i] = s[1] /\ Len(s[i].stk) < Os[i].dep + (IF F = "c" THEN 1 ELSE 0)
=============================================================================
