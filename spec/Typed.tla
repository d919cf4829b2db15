------------------------------- MODULE Typed -------------------------------
(* What a JSON value means to a C++ type.  The reader machine delivers the  *)
(* events of a document; Tree folds them; Denote maps the tree to the value *)
(* a target of type T must then have, or refuses it.                        *)
(*                                                                          *)
(* Types: <<"int", name>> <<"real", name>> <<"bool">> <<"null">>            *)
(*   <<"str">> <<"chr", greatest code>> <<"cstr">> <<"carr", N, fill>>      *)
(*   <<"bits", N>> <<"enum", names>>                                        *)
(*   <<"seq", T>> <<"bag", T>> <<"set", T>> <<"arr", T, N, initial>>        *)
(*   <<"cap", T, N>> (at most N elements) <<"stk", T>> (pushed in order)    *)
(*   <<"top", T>> (a stack as it is written: from its top)                  *)
(*   <<"tup", Ts>> <<"opt", T>> <<"var", Ts>> <<"uvar", Ts>>                *)
(*   <<"map", K, T>> <<"mmap", K, T>>                                       *)
(*   <<"cls", fields>> with fields <<name, T, initial value>> or            *)
(*                       <<name, <<"skip">>, ...>>                          *)
(* Values: <<"n",text>> <<"r",format,text>> <<"b",word>> <<"s",bytes>>      *)
(*   <<"~">> (nothing) <<"?",value>> <<"[",values>> <<"S",values>>          *)
(*   <<"B",values>> <<"M",pairs>> <<"W",pairs>> <<"v",index,value>>         *)
(*   <<"e",name>> <<"(",values>> <<"!">> (refused)                          *)
EXTENDS NumText, Text

No == <<"!">>
Bad(r) == r[1] = "!"

-----------------------------------------------------------------------------
(* events to tree: <<kind, payload>>; lists and objects carry sequences *)
RECURSIVE TreeAt(_, _), ItemsAt(_, _, _), PairsAt(_, _, _)
TreeAt(ev, i) ==       \* <<value, next index>>
    LET e == ev[i] IN
    IF e[1] = "[" THEN ItemsAt(ev, i + 1, <<>>)
    ELSE IF e[1] = "{" THEN PairsAt(ev, i + 1, <<>>)
    ELSE <<e, i + 1>>
ItemsAt(ev, i, acc) ==
    IF ev[i][1] = "]" THEN << <<"[", acc>>, i + 1 >>
    ELSE LET t == TreeAt(ev, i) IN ItemsAt(ev, t[2], Append(acc, t[1]))
PairsAt(ev, i, acc) ==
    IF ev[i][1] = "}" THEN << <<"{", acc>>, i + 1 >>
    ELSE IF ev[i][1] = "kn"             \* a key that is not a string
    THEN LET q == TreeAt([ev EXCEPT ![i] = Tail(@)], i)
             t == TreeAt(ev, q[2]) IN PairsAt(ev, t[2], Append(acc, <<<<>>, t[1], q[1]>>))
    ELSE LET t == TreeAt(ev, i + 1) IN PairsAt(ev, t[2], Append(acc, <<ev[i][2], t[1], <<>>>>))
Tree(ev) == TreeAt(ev, 1)[1]

-----------------------------------------------------------------------------
Number(v) == v[1] \in {"u", "i", "r"}
NormInt(t) == IF t = <<45, 48>> THEN <<48>> ELSE t
FitsInt(name, t) ==
    /\ IntegerText(t)
    /\ (name \in Unsigned => t[1] # 45)
    /\ Holds(name, t)
NanWords == { <<110,97,110>>, <<45,110,97,110>>, <<105,110,102>>, <<45,105,110,102>> }
IsBits(bs) == \A i \in 1..Len(bs) : bs[i] \in {48, 49}
(* only white space from i on *)
RECURSIVE Blank(_, _)
Blank(bs, i) == i > Len(bs) \/ (JsonSpace(bs[i]) /\ Blank(bs, i + 1))
(* the kind of value an alternative announces *)
Kind(T) == CASE T[1] \in {"int", "real"} -> "number"
             [] T[1] \in {"str", "chr", "bits", "cstr", "carr", "enum"} -> "string"
             [] T[1] \in {"seq", "stk", "top", "set", "bag", "arr", "cap", "tup"} -> "list"
             [] T[1] \in {"map", "mmap", "cls"} -> "map"
             [] T[1] = "bool" -> "bool"
             [] T[1] = "null" -> "null"
             [] OTHER -> "?"
KindOf(v) == CASE Number(v) -> "number" [] v[1] = "s" -> "string" [] v[1] = "[" -> "list" [] v[1] = "{" -> "map"
               [] v[1] \in {"true", "false"} -> "bool" [] v[1] = "null" -> "null"

RECURSIVE Denote(_, _), DenoteKey(_, _)
AnyBad(rs) == \E i \in 1..Len(rs) : Bad(rs[i])
(* the last of several equal keys gives the value *)
LastWins(ps) == SelectSeq([i \in 1..Len(ps) |-> <<i, ps[i]>>], LAMBDA q : \A j \in 1..Len(ps) : j > q[1] => ps[j][1] # q[2][1])
Drop1(qs) == [i \in 1..Len(qs) |-> qs[i][2]]
(* keep the first of equal elements *)
Uniq(rs) == Drop1(SelectSeq([i \in 1..Len(rs) |-> <<i, rs[i]>>], LAMBDA q : \A j \in 1..Len(rs) : j < q[1] => rs[j] # q[2]))
FieldIx(fs, name) == {i \in 1..Len(fs) : fs[i][1] = name}
Item(vs, T) == [i \in 1..Len(vs) |-> Denote(T, vs[i])]

DenoteObj(T, ps) ==     \* maps
    LET rs == [i \in 1..Len(ps) |-> <<DenoteKey(T[2], ps[i]), Denote(T[3], ps[i][2])>>] IN
    IF \E i \in 1..Len(rs) : Bad(rs[i][1]) \/ Bad(rs[i][2]) THEN No
    ELSE IF T[1] = "mmap" THEN <<"W", rs>> ELSE <<"M", Drop1(LastWins(rs))>>
DenoteClass(T, ps) ==
    LET fs == T[2]
        ix == [i \in 1..Len(ps) |-> IF ps[i][3] # <<>> THEN {} ELSE FieldIx(fs, ps[i][1])]
        one(i) == CHOOSE k \in ix[i] : TRUE
    IN  IF \E i \in 1..Len(ps) : ix[i] = {} THEN No
        ELSE IF \E i, j \in 1..Len(ps) : i < j /\ one(i) = one(j) THEN No
        ELSE LET val(k) == LET is == {i \in 1..Len(ps) : one(i) = k} IN
                           IF fs[k][2][1] = "skip" THEN <<"b", "skip">>
                           ELSE IF is = {} THEN fs[k][3] ELSE Denote(fs[k][2], ps[CHOOSE i \in is : TRUE][2])
                 rs == [k \in 1..Len(fs) |-> val(k)]
             IN IF AnyBad(rs) THEN No ELSE <<"(", rs>>

(* variants addressed by index *)
DenoteVar(T, ps) ==
    IF Len(ps) # 1 THEN No
    ELSE LET k == DenoteKey(<<"int", "u32">>, ps[1]) IN
         IF Bad(k) \/ Len(k[2]) # 1 \/ k[2][1] - 48 >= Len(T[2]) THEN No
         ELSE LET r == Denote(T[2][k[2][1] - 47], ps[1][2]) IN IF Bad(r) THEN No ELSE <<"v", k[2][1] - 48, r>>

Denote(T, v) ==
    CASE T[1] = "int"  -> IF Number(v) /\ FitsInt(T[2], v[2]) THEN <<"n", NormInt(v[2])>> ELSE No
      [] T[1] = "real" -> IF Number(v) THEN <<"r", T[2], v[2]>>
                          ELSE IF v[1] = "s" /\ ~Opt.jn /\ v[2] \in NanWords THEN <<"r", T[2], v[2]>> ELSE No
      [] T[1] = "bool" -> IF v[1] \in {"true", "false"} THEN <<"b", v[1]>> ELSE No
      [] T[1] = "null" -> IF v[1] = "null" THEN <<"~">> ELSE No
      [] T[1] = "str"  -> IF v[1] = "s" THEN v ELSE No
      [] T[1] = "chr"  -> IF v[1] = "s" THEN (LET cs == Codes(v[2]) IN IF Len(cs) = 1 /\ cs[1] <= T[2] THEN <<"s", v[2]>> ELSE No) ELSE No
      [] T[1] = "cstr" -> IF v[1] = "null" THEN <<"~">> ELSE IF v[1] = "s" THEN <<"?", v>> ELSE No
      [] T[1] = "carr" -> IF v[1] = "s" /\ Len(v[2]) <= T[2]
                          THEN <<"s", [i \in 1..T[2] |-> IF i <= Len(v[2]) THEN v[2][i] ELSE IF i = Len(v[2]) + 1 THEN 0 ELSE T[3]]>> ELSE No
      [] T[1] = "bits" -> IF v[1] = "s" /\ Len(v[2]) = T[2] /\ IsBits(v[2]) THEN v ELSE No
      [] T[1] = "enum" -> IF v[1] = "s" /\ (\E i \in 1..Len(T[2]) : T[2][i] = v[2]) THEN <<"e", v[2]>> ELSE No
      [] T[1] \in {"seq", "stk", "top", "bag", "set"} ->
            IF v[1] # "[" THEN No
            ELSE LET rs == Item(v[2], T[2]) IN
                 IF AnyBad(rs) THEN No
                 ELSE IF T[1] \in {"seq", "stk"} THEN <<"[", rs>> ELSE IF T[1] = "top" THEN <<"[", [i \in 1..Len(rs) |-> rs[Len(rs) + 1 - i]]>> ELSE IF T[1] = "bag" THEN <<"B", rs>> ELSE <<"S", Uniq(rs)>>
      [] T[1] = "cap" ->
            IF v[1] # "[" \/ (v[1] = "[" /\ Len(v[2]) > T[3]) THEN No
            ELSE LET rs == Item(v[2], T[2]) IN IF AnyBad(rs) THEN No ELSE <<"[", rs>>
      [] T[1] = "arr" ->
            IF v[1] # "[" \/ (v[1] = "[" /\ Len(v[2]) > T[3]) THEN No
            ELSE LET rs == Item(v[2], T[2]) IN
                 IF AnyBad(rs) THEN No ELSE <<"[", [i \in 1..T[3] |-> IF i <= Len(rs) THEN rs[i] ELSE T[4]]>>
      [] T[1] = "tup" ->
            IF v[1] # "[" \/ (v[1] = "[" /\ Len(v[2]) # Len(T[2])) THEN No
            ELSE LET rs == [i \in 1..Len(v[2]) |-> Denote(T[2][i], v[2][i])] IN
                 IF AnyBad(rs) THEN No ELSE <<"[", rs>>
      [] T[1] = "opt" -> IF v[1] = "null" THEN <<"~">> ELSE LET r == Denote(T[2], v) IN IF Bad(r) THEN No ELSE <<"?", r>>
      [] T[1] = "var" -> IF v[1] = "{" THEN DenoteVar(T, v[2]) ELSE No
      [] T[1] = "uvar" ->
            LET is == {i \in 1..Len(T[2]) : Kind(T[2][i]) = KindOf(v)} IN
            IF is = {} THEN No
            ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j
                     r == Denote(T[2][i], v) IN IF Bad(r) THEN No ELSE <<"v", i - 1, r>>
      [] T[1] \in {"map", "mmap"} -> IF v[1] = "{" THEN DenoteObj(T, v[2]) ELSE No
      [] T[1] = "cls" -> IF v[1] = "{" THEN DenoteClass(T, v[2]) ELSE No
(* a key is a string; what is not a string type finds its own text in it *)
DenoteKey(K, p) ==
    LET bs == p[1] IN
    IF p[3] # <<>> THEN Denote(K, p[3])
    ELSE IF Opt.key = "b" THEN Denote(K, <<"s", bs>>)
    ELSE IF K[1] \in {"str", "chr", "enum", "carr", "bits"} THEN Denote(K, <<"s", bs>>)
    ELSE LET s == JRun(bs) IN
         IF s.m = "done" /\ Blank(bs, s.n + 1) THEN Denote(K, Tree(s.ev)) ELSE No

(* the outcome for type T of a machine state in which the input has ended.  *)
(* A number read on its own may be followed by anything.                    *)
Outcome(T, z) == IF z.m # "done" THEN No ELSE Denote(T, Tree(z.ev))

(* The members a writer emits for a class: registered names in order, each  *)
(* at most once, nothing else.                                              *)
RECURSIVE InOrder(_, _)
IndexOf(fs, name) == LET is == FieldIx(fs, name) IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
InOrder(T, v) ==
    CASE T[1] = "cls" -> v[1] = "{" =>
            /\ \A i \in 1..Len(v[2]) : LET k == IndexOf(T[2], v[2][i][1]) IN k > 0 /\ T[2][k][2][1] # "skip" /\ InOrder(T[2][k][2], v[2][i][2])
            /\ \A i \in 1..Len(v[2])-1 : IndexOf(T[2], v[2][i][1]) < IndexOf(T[2], v[2][i+1][1])
      [] T[1] \in {"seq", "stk", "top", "bag", "set", "arr", "cap"} -> v[1] = "[" => \A i \in 1..Len(v[2]) : InOrder(T[2], v[2][i])
      [] T[1] = "opt" -> v[1] # "null" => InOrder(T[2], v)
      [] T[1] \in {"map", "mmap"} -> v[1] = "{" => \A i \in 1..Len(v[2]) : InOrder(T[3], v[2][i][2])
      [] OTHER -> TRUE
=============================================================================
