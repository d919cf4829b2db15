------------------------------ MODULE StoreGen ------------------------------
(* Storage obtained while a value is read.  The machine walks a type from   *)
(* the outside in, chooses what the document holds, writes the document in  *)
(* both formats, obtains a block for every pointer before what it points to *)
(* is read and hands it to its holder afterwards; at any point reading may  *)
(* fail.  The ledger says what the target owns and what has been given back.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Strs, MaxItems, Nulls, Fails

VARIABLES x, todo, j, c, blk, res
vars == <<x, todo, j, c, blk, res>>

(* a block: what for, of how many units, held by which block (0: the target)*)
(* held - by its holder already, live - not given back                      *)
Read(t, o) == [k |-> "read", t |-> t, o |-> o, j |-> <<>>, c |-> <<>>]
(* pointed to: null would be of the pointer's                               *)
There(t, o) == [Read(t, o) EXCEPT !.k = "read", !.j = <<0>>]
Text(a, b) == [k |-> "text", t |-> <<>>, o |-> 0, j |-> a, c |-> b]
Own(b)     == [k |-> "own", t |-> <<>>, o |-> b, j |-> <<>>, c |-> <<>>]
Top == Head(todo)
Rest == Tail(todo)

Init == /\ x \in 1..Len(Types)
        /\ todo = <<Read(Types[x], 0)>>
        /\ j = <<>> /\ c = <<>> /\ blk = <<>> /\ res = "reading"
Write(a, b) == j' = j \o a /\ c' = c \o b
Going == res = "reading" /\ todo # <<>>
Reading(k) == Going /\ Top.k = "read" /\ Top.t[1] = k

Int == Reading("int") /\ Write(<<55>>, <<7>>) /\ todo' = Rest /\ UNCHANGED <<x, blk, res>>
Txt == Reading("txt") /\ Write(<<34, 97, 34>>, <<97, 97>>) /\ todo' = Rest /\ UNCHANGED <<x, blk, res>>
Null ==
    /\ Going /\ Top.k = "read" /\ Top.t[1] \in {"ptr", "own", "str"} /\ Nulls /\ Top.j = <<>>
    /\ Write(<<110, 117, 108, 108>>, <<246>>) /\ todo' = Rest /\ UNCHANGED <<x, blk, res>>
Ptr ==
    /\ Going /\ Top.k = "read" /\ Top.t[1] \in {"ptr", "own"}
    /\ blk' = Append(blk, [n |-> 1, of |-> Top.o, held |-> FALSE, live |-> TRUE])
    /\ todo' = <<There(Top.t[2], Len(blk) + 1), Own(Len(blk) + 1)>> \o Rest
    /\ UNCHANGED <<x, j, c, res>>
Str ==
    /\ Reading("str")
    /\ \E i \in 1..Len(Strs) :
        /\ blk' = Append(blk, [n |-> Strs[i].n + 1, of |-> Top.o, held |-> FALSE, live |-> TRUE])
        /\ todo' = <<Text(<<34>> \o Strs[i].j \o <<34>>, IF Top.t[2] = 1 THEN Strs[i].c ELSE Strs[i].w), Own(Len(blk) + 1)>> \o Rest
    /\ UNCHANGED <<x, j, c, res>>
RECURSIVE Times(_, _, _)
Times(t, o, n) == IF n = 0 THEN <<>> ELSE <<Read(t, o)>> \o (IF n = 1 THEN <<>> ELSE <<Text(<<44>>, <<>>)>>) \o Times(t, o, n - 1)
List ==
    /\ Reading("list")
    /\ \E n \in 0..MaxItems : todo' = <<Text(<<91>>, <<128 + n>>)>> \o Times(Top.t[2], Top.o, n) \o <<Text(<<93>>, <<>>)>> \o Rest
    /\ UNCHANGED <<x, j, c, blk, res>>
Pair ==
    /\ Reading("pair")
    /\ todo' = <<Text(<<91>>, <<130>>), Read(Top.t[2], Top.o), Text(<<44>>, <<>>), Read(Top.t[3], Top.o), Text(<<93>>, <<>>)>> \o Rest
    /\ UNCHANGED <<x, j, c, blk, res>>
Key(k) == Text(<<34, k, 34, 58>>, <<97, k>>)
Members(t, o, n) == IF n = 0 THEN <<>> ELSE <<Key(97), Read(t, o)>> \o (IF n = 1 THEN <<>> ELSE <<Text(<<44>>, <<>>), Key(98), Read(t, o)>>)
Map ==
    /\ Reading("map")
    /\ \E n \in 0..2 : todo' = <<Text(<<123>>, <<160 + n>>)>> \o Members(Top.t[2], Top.o, n) \o <<Text(<<125>>, <<>>)>> \o Rest
    /\ UNCHANGED <<x, j, c, blk, res>>
Cls ==
    /\ Reading("cls")
    /\ todo' = <<Text(<<123>>, <<162>>), Key(97), Read(Top.t[2], Top.o), Text(<<44>>, <<>>), Key(98), Read(Top.t[3], Top.o), Text(<<125>>, <<>>)>> \o Rest
    /\ UNCHANGED <<x, j, c, blk, res>>
Put == Going /\ Top.k = "text" /\ Write(Top.j, Top.c) /\ todo' = Rest /\ UNCHANGED <<x, blk, res>>
Hold == Going /\ Top.k = "own" /\ blk' = [blk EXCEPT ![Top.o].held = TRUE] /\ todo' = Rest /\ UNCHANGED <<x, j, c, res>>
RECURSIVE Reach(_, _)
Reach(bs, b) == b = 0 \/ (bs[b].held /\ Reach(bs, bs[b].of))
(* reading fails: whatever the target does not hold is given back           *)
Fail ==
    /\ Fails /\ Going
    /\ res' = "failed" /\ todo' = <<>>
    /\ blk' = [b \in 1..Len(blk) |-> [blk[b] EXCEPT !.live = Reach(blk, b)]]
    /\ Write(<<33>>, <<255>>) /\ UNCHANGED x
Done == res = "reading" /\ todo = <<>> /\ res' = "read" /\ UNCHANGED <<x, todo, j, c, blk>>
Next == Int \/ Txt \/ Null \/ Ptr \/ Str \/ List \/ Pair \/ Map \/ Cls \/ Put \/ Hold \/ Fail \/ Done
Spec == Init /\ [][Next]_vars

Ended == res # "reading"
(* nothing is lost, nothing is held that has been given back                *)
Kept == Ended => \A b \in 1..Len(blk) : blk[b].live <=> Reach(blk, b)
Whole == res = "read" => \A b \in 1..Len(blk) : blk[b].held /\ blk[b].live
Forward == \A b \in 1..Len(blk) : blk[b].of < b
Out == Ended => PrintT(ToJson(<<"D", x, res, j, c, [b \in {i \in 1..Len(blk) : blk[i].live} |-> blk[b].n]>>))
=============================================================================
