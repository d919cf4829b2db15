------------------------------ MODULE CborItem ------------------------------
(* RFC 7049 data items as a machine that takes one byte per step.  Integers *)
(* and lengths are kept as their big-endian bytes (TLC integers have 32     *)
(* bits); a count that does not fit is kept as Cap, which no input reaches. *)
(*                                                                          *)
(* Opt: dep - lists, maps and tags nest less deeply than this (0: no limit);*)
(*      lim - negative integers below -2^63 do not fit the value model.     *)
(*                                                                          *)
(* State: m - what comes next: "head" (a first byte), "arg" (rest of a      *)
(* head), "str" (bytes of a string), "done", "err"; n - bytes consumed;     *)
(* ev - the item so far, as events; stk - open containers, innermost last:  *)
(* <<kind, items to come>> with kind "[" "{" (definite) "*" (indefinite     *)
(* list), "k" / "v" (indefinite map, at a key / at a value), "t" (tag),     *)
(* "b" / "s" (indefinite string: its chunks); mj, aw, ab - major type,      *)
(* argument bytes to come, argument bytes; left, sb - string bytes to come, *)
(* string bytes; r - why it failed.                                         *)
(*                                                                          *)
(* Events: <<"u",bytes>>, <<"i",bytes>> (-1 - bytes), <<"f",bytes>>,        *)
(* <<"b",bytes>>, <<"s",bytes>>, <<"[">> <<"]">> <<"{">> <<"}">>,           *)
(* <<"t",bytes>> (a tag on the next item), <<"x",n>> (simple value),        *)
(* <<"true">> <<"false">> <<"null">> <<"undef">>.  The last element of an   *)
(* event that has a head with an argument: is that head the shortest one    *)
(* (1: yes, 0: no, 2: the length was not stated)?                           *)
EXTENDS Integers, Sequences

CONSTANT Opt

Cap == 16777216

CInit == [m |-> "head", n |-> 0, ev |-> <<>>, stk |-> <<>>, mj |-> 0, aw |-> 0, ab |-> <<>>, left |-> 0, sb |-> <<>>, fl |-> 1, r |-> ""]
Terminal(s) == s.m \in {"done", "err"}
Fail(s, why) == [s EXCEPT !.m = "err", !.r = why]
Top(s) == s.stk[Len(s.stk)]
InChunks(s) == s.stk # <<>> /\ Top(s)[1] \in {"b", "s"}

(* big-endian bytes to a number, capped *)
RECURSIVE Val(_, _)
Val(bs, a) == IF bs = <<>> THEN a
              ELSE IF a >= 65536 THEN Cap ELSE Val(Tail(bs), a * 256 + Head(bs))
Num(bs) == LET v == Val(bs, 0) IN IF v > Cap THEN Cap ELSE v
RECURSIVE Strip(_)
Strip(bs) == IF bs # <<>> /\ Head(bs) = 0 THEN Strip(Tail(bs)) ELSE bs

(* an item (or the head of a tag, which is followed by one) is complete *)
RECURSIVE Close(_)
Close(s) ==
    IF s.stk = <<>> THEN [s EXCEPT !.m = "done"]
    ELSE LET t == Top(s) IN
         CASE t[1] \in {"[", "{"} ->
                IF t[2] = 1 THEN Close([s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.ev = Append(@, <<IF t[1] = "[" THEN "]" ELSE "}">>)])
                ELSE [s EXCEPT !.m = "head", !.stk[Len(s.stk)][2] = IF @ = Cap THEN Cap ELSE @ - 1]
           [] t[1] = "t" -> Close([s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)])
           [] t[1] = "k" -> [s EXCEPT !.m = "head", !.stk[Len(s.stk)][1] = "v"]
           [] t[1] = "v" -> [s EXCEPT !.m = "head", !.stk[Len(s.stk)][1] = "k"]
           [] t[1] = "*" -> [s EXCEPT !.m = "head"]
Leaf(s, e) == Close([s EXCEPT !.ev = Append(@, e), !.ab = <<>>, !.aw = 0])

Open(s, k, c, e) ==
    [s EXCEPT !.m = "head", !.stk = Append(@, <<k, c>>), !.ev = Append(@, e), !.ab = <<>>, !.aw = 0]

(* string of known length: a whole one or a chunk *)
StrEnd(s) ==
    IF InChunks(s) THEN [s EXCEPT !.m = "head", !.ab = <<>>]        \* keep the bytes for the whole
    ELSE Leaf([s EXCEPT !.sb = <<>>], <<IF s.mj = 2 THEN "b" ELSE "s", s.sb, s.fl>>)
StrBegin(s, l) == IF l = 0 THEN StrEnd(s) ELSE [s EXCEPT !.m = "str", !.left = l]

(* no shorter head could carry this argument *)
Minimal(bs) == CASE Len(bs) = 1 -> bs[1] >= 24
                 [] Len(bs) = 2 -> bs[1] # 0
                 [] Len(bs) = 4 -> bs[1] # 0 \/ bs[2] # 0
                 [] OTHER -> \E i \in 1..4 : bs[i] # 0

(* the argument is known: bs its bytes as spelled, v its capped value *)
Arg(s, ai) ==
    LET bs == IF ai < 24 THEN <<ai>> ELSE s.ab
        w  == IF ai < 24 \/ Minimal(bs) THEN 1 ELSE 0
        v  == Num(bs)
    IN
    CASE s.mj = 0 -> Leaf(s, <<"u", Strip(bs), w>>)
      [] s.mj = 1 -> IF Opt.lim /\ Len(bs) = 8 /\ bs[1] >= 128 THEN Fail(s, "range") ELSE Leaf(s, <<"i", Strip(bs), w>>)
      [] s.mj \in {2, 3} -> StrBegin([s EXCEPT !.fl = w], v)
      [] s.mj = 4 -> IF v = 0 THEN Leaf(s, <<"[]", w>>) ELSE Open(s, "[", v, <<"[", w>>)
      [] s.mj = 5 -> IF v = 0 THEN Leaf(s, <<"{}", w>>) ELSE Open(s, "{", IF v = Cap THEN Cap ELSE 2 * v, <<"{", w>>)
      [] s.mj = 6 -> Open(s, "t", 1, <<"t", Strip(bs), w>>)
      [] s.mj = 7 -> IF ai < 20 THEN Leaf(s, <<"x", ai, 1>>)
                     ELSE IF ai = 20 THEN Leaf(s, <<"false">>) ELSE IF ai = 21 THEN Leaf(s, <<"true">>)
                     ELSE IF ai = 22 THEN Leaf(s, <<"null">>) ELSE IF ai = 23 THEN Leaf(s, <<"undef">>)
                     ELSE IF ai = 24 THEN Leaf(s, <<"x", v, IF v >= 32 THEN 1 ELSE 0>>)
                     ELSE Leaf(s, <<"f", bs>>)

Depth(s) == Len(s.stk)       \* chunks are never followed by a container
Break(s) ==
    IF s.stk = <<>> THEN Fail(s, "break")
    ELSE LET t == Top(s)
             up == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)] IN
         CASE t[1] = "*" -> Close([up EXCEPT !.ev = Append(@, <<"]">>)])
           [] t[1] = "k" -> Close([up EXCEPT !.ev = Append(@, <<"}">>)])
           [] t[1] \in {"b", "s"} -> Close([up EXCEPT !.ev = Append(@, <<t[1], s.sb, 2>>), !.sb = <<>>])
           [] OTHER -> Fail(s, "break")

Head_(s, b) ==
    LET mj == b \div 32
        ai == b % 32
        z  == [s EXCEPT !.mj = mj, !.ab = <<>>]
    IN
    IF b = 255 THEN Break(s)
    ELSE IF InChunks(s) /\ (ai = 31 \/ mj # (IF Top(s)[1] = "b" THEN 2 ELSE 3)) THEN Fail(s, "chunk")
    ELSE IF mj \in {4, 5, 6} /\ Opt.dep > 0 /\ Depth(s) + 1 >= Opt.dep THEN Fail(s, "depth")
    ELSE IF ai \in 28..30 THEN Fail(s, "reserved")
    ELSE IF ai = 31
    THEN CASE mj = 2 -> Open(z, "b", 0, <<"*">>)
           [] mj = 3 -> Open(z, "s", 0, <<"*">>)
           [] mj = 4 -> Open(z, "*", 0, <<"[", 2>>)
           [] mj = 5 -> Open(z, "k", 0, <<"{", 2>>)
           [] OTHER -> Fail(s, "reserved")
    ELSE IF ai >= 24 THEN [z EXCEPT !.m = "arg", !.aw = CASE ai = 24 -> 1 [] ai = 25 -> 2 [] ai = 26 -> 4 [] OTHER -> 8]
    ELSE Arg(z, ai)

CStep(s0, b) ==
    LET s == [s0 EXCEPT !.n = @ + 1] IN
    CASE s.m = "head" -> Head_(s, b)
      [] s.m = "arg" ->
            LET z == [s EXCEPT !.ab = Append(@, b), !.aw = @ - 1] IN
            IF z.aw = 0 THEN Arg(z, CASE Len(z.ab) = 1 -> 24 [] Len(z.ab) = 2 -> 25 [] Len(z.ab) = 4 -> 26 [] OTHER -> 27) ELSE z
      [] s.m = "str" ->
            LET z == [s EXCEPT !.sb = Append(@, b), !.left = IF @ = Cap THEN Cap ELSE @ - 1] IN
            IF z.left = 0 THEN StrEnd(z) ELSE z
CEof(s) == IF Terminal(s) THEN s ELSE Fail(s, "end")

RECURSIVE CFeed(_, _, _)
CFeed(s, bs, i) == IF i > Len(bs) \/ Terminal(s) THEN s ELSE CFeed(CStep(s, bs[i]), bs, i + 1)
CRun(bs) == CEof(CFeed(CInit, bs, 1))

(* every head is the shortest and every length is stated *)
Shortest(ev) == \A i \in 1..Len(ev) : ev[i][1] \in {"u", "i", "b", "s", "[", "{", "[]", "{}", "t", "x"} => ev[i][Len(ev[i])] = 1

-----------------------------------------------------------------------------
(* what must hold of every state *)
CTypeOK(s) ==
    /\ s.m \in {"head", "arg", "str", "done", "err"}
    /\ (s.m = "arg") => s.aw \in 1..8 /\ Len(s.ab) < 8
    /\ (s.m = "str") => s.left > 0
    /\ \A i \in 1..Len(s.stk) : s.stk[i][1] \in {"[", "{", "*", "k", "v", "t", "b", "s"}
    /\ \A i \in 1..Len(s.stk) : s.stk[i][1] \in {"b", "s"} => i = Len(s.stk)
    /\ \A i \in 1..Len(s.stk) : s.stk[i][1] \in {"[", "{"} => s.stk[i][2] > 0
    /\ Opt.dep > 0 => Len(s.stk) <= Opt.dep
CountEv(ev, ks) == Len(SelectSeq(ev, LAMBDA e : e[1] \in ks))
(* opened containers are exactly those closed and those still open; a        *)
(* finished item has none open                                              *)
CBalanced(s) ==
    s.m # "err" =>
    /\ CountEv(s.ev, {"["}) = CountEv(s.ev, {"]"}) + Len(SelectSeq(s.stk, LAMBDA t : t[1] \in {"[", "*"}))
    /\ CountEv(s.ev, {"{"}) = CountEv(s.ev, {"}"}) + Len(SelectSeq(s.stk, LAMBDA t : t[1] \in {"{", "k", "v"}))
    /\ (s.m = "done") => s.stk = <<>>
=============================================================================
