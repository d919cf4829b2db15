----------------------------- MODULE NodeCalls -----------------------------
(* Histories of calls that walk nested values under a limit.  A call may be *)
(* made while another one is between two of its bytes (from one of its      *)
(* iterators, or by another thread): calls on top of `run` are the ones     *)
(* going on.  Every call is its own machine with its own depth: it has the  *)
(* outcome it would have alone.                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Calls,        \* <<[f |-> "j" or "c", o |-> options of the machine, doc |-> bytes], ...>>
          Inside,       \* how many may be going on at once
          Most          \* how many there are in a history
J(o) == INSTANCE JsonText WITH Opt <- o
C(o) == INSTANCE CborItem WITH Opt <- o

First(c) == IF c.f = "j" THEN J(c.o)!JInit ELSE C(c.o)!CInit
Byte(c, s, b) == IF c.f = "j" THEN J(c.o)!JStep(s, b) ELSE C(c.o)!CStep(s, b)
End(c, s) == IF c.f = "j" THEN J(c.o)!JEof(s) ELSE C(c.o)!CEof(s)
Over(s) == s.m \in {"done", "err"}
Res(s) == IF s.m = "done" THEN "ok" ELSE IF s.r = "depth" THEN "depth" ELSE "err"
Alone(c) == Res(IF c.f = "j" THEN J(c.o)!JRun(c.doc) ELSE C(c.o)!CRun(c.doc))
Alones == [i \in 1..Len(Calls) |-> Alone(Calls[i])]

VARIABLES run, log
vars == <<run, log>>
Top == run[Len(run)]
Init == run = <<>> /\ log = <<>>
Begin ==
    /\ Len(log) < Most /\ Len(run) < Inside
    /\ run # <<>> => Top.p > 0
    /\ \E i \in 1..Len(Calls) :
        /\ log' = Append(log, <<i, IF run = <<>> THEN 0 ELSE Top.id, IF run = <<>> THEN 0 ELSE Top.p, "?">>)
        /\ run' = Append(run, [id |-> Len(log) + 1, c |-> i, p |-> 0, s |-> First(Calls[i])])
Go ==
    /\ run # <<>>
    /\ LET t == Top
           c == Calls[t.c]
           s == IF t.p < Len(c.doc) THEN Byte(c, t.s, c.doc[t.p + 1]) ELSE End(c, t.s)
       IN  IF Over(s)
           THEN run' = SubSeq(run, 1, Len(run) - 1) /\ log' = [log EXCEPT ![t.id][4] = Res(s)]
           ELSE run' = [run EXCEPT ![Len(run)] = [t EXCEPT !.p = @ + 1, !.s = s]] /\ UNCHANGED log
Next == Begin \/ Go
Spec == Init /\ [][Next]_vars

Out == (run = <<>> /\ log # <<>>) => PrintT(ToJson(<<"H", log>>))
(* no call changes the outcome of another one *)
Independent == \A i \in 1..Len(log) : log[i][4] \in {"?", Alones[log[i][1]]}
=============================================================================
