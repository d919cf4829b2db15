----------------------------- MODULE TypedCbor -----------------------------
(* What a CBOR item means to a C++ type.  The item machine delivers events; *)
(* CTree folds them; Den maps the tree to the value a target of type T must *)
(* then have.                                                               *)
(*                                                                          *)
(* Opt.sk: judge what is ignored by a class strictly even where it holds    *)
(* tags or chunked strings.                                                 *)
(*                                                                          *)
(* Types: as in Typed; <<"str",8>> <<"str",16>> <<"str",32>> (code units),  *)
(* <<"opt",T,"u">> (empty: undefined) <<"opt",T,"p">> (empty: null),        *)
(* <<"null">> / <<"null","u">>, <<"enum", names, aliases>>.                 *)
(*                                                                          *)
(* Results: <<"!">> refused; <<"*">> not settled; <<"|",value>> may be      *)
(* refused, otherwise is this value; or the value.  Values as in Typed, but *)
(* <<"u",bytes>> <<"i",bytes>> (-1 - n) for integers, <<"c",bytes>> a       *)
(* character by its code, <<"w",codes,width>> a string of wide characters,  *)
(* <<"fl"|"fu"|"fi",format,bytes>> a real given by an IEEE pattern, by an   *)
(* unsigned, by a negative integer.                                         *)
EXTENDS CborItem

No == <<"!">>
Star == <<"*">>
Bad(r) == r[1] = "!"
Un(r) == IF r[1] = "|" THEN r[2] ELSE r

(* events to tree: containers carry their items and whether their length was stated *)
RECURSIVE CTreeAt(_, _), CItems(_, _, _, _), CPairs(_, _, _, _)
CTreeAt(ev, i) ==
    LET e == ev[i] IN
    CASE e[1] = "*"  -> CTreeAt(ev, i + 1)
      [] e[1] = "[]" -> << <<"[", <<>>, 1>>, i + 1 >>
      [] e[1] = "{}" -> << <<"{", <<>>, 1>>, i + 1 >>
      [] e[1] = "["  -> CItems(ev, i + 1, <<>>, IF e[2] = 2 THEN 2 ELSE 1)
      [] e[1] = "{"  -> CPairs(ev, i + 1, <<>>, IF e[2] = 2 THEN 2 ELSE 1)
      [] e[1] = "t"  -> LET t == CTreeAt(ev, i + 1) IN << <<"t", e[2], t[1]>>, t[2] >>
      [] OTHER -> <<e, i + 1>>
CItems(ev, i, acc, d) ==
    IF ev[i][1] = "]" THEN << <<"[", acc, d>>, i + 1 >>
    ELSE LET t == CTreeAt(ev, i) IN CItems(ev, t[2], Append(acc, t[1]), d)
CPairs(ev, i, acc, d) ==
    IF ev[i][1] = "}" THEN << <<"{", acc, d>>, i + 1 >>
    ELSE LET a == CTreeAt(ev, i)
             b == CTreeAt(ev, a[2]) IN CPairs(ev, b[2], Append(acc, <<a[1], b[1]>>), d)
CTree(ev) == CTreeAt(ev, 1)[1]

-----------------------------------------------------------------------------
(* numbers by their bytes *)
RECURSIVE LexLe(_, _)
LexLe(a, b) == a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLe(Tail(a), Tail(b)))
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
FF(n) == [i \in 1..n |-> 255]
Size(name) == CASE name \in {"i8", "u8"} -> 1 [] name \in {"i16", "u16"} -> 2 [] name \in {"i32", "u32"} -> 4 [] OTHER -> 8
Signed(name) == name \in {"i8", "i16", "i32", "i64"}
MaxOf(name) == IF Signed(name) THEN <<127>> \o FF(Size(name) - 1) ELSE FF(Size(name))
B1(b) == Strip(<<b>>)
(* a byte of a string as an integer *)
ByteInt(name, b) == IF name = "i8" /\ b >= 128 THEN <<"i", B1(255 - b)>> ELSE <<"u", B1(b)>>

(* sequences of results *)
Join(rs, v) ==
    IF \E i \in 1..Len(rs) : Bad(rs[i]) THEN No
    ELSE IF \E i \in 1..Len(rs) : rs[i][1] = "*" THEN Star
    ELSE IF \E i \in 1..Len(rs) : rs[i][1] = "|" THEN <<"|", v>> ELSE v
Plain(rs) == [i \in 1..Len(rs) |-> Un(rs[i])]
Drop1(qs) == [i \in 1..Len(qs) |-> qs[i][2]]
LastWins(ps) == Drop1(SelectSeq([i \in 1..Len(ps) |-> <<i, ps[i]>>], LAMBDA q : \A j \in 1..Len(ps) : j > q[1] => ps[j][1] # q[2][1]))
Uniq(rs) == Drop1(SelectSeq([i \in 1..Len(rs) |-> <<i, rs[i]>>], LAMBDA q : \A j \in 1..Len(rs) : j < q[1] => rs[j] # q[2]))
Scalar(T) == T[1] \in {"int", "real", "bool", "chr", "enum"}
Distinct(rs) == \A i, j \in 1..Len(rs) : i < j => rs[i] # rs[j]

RECURSIVE HasTagOrChunks(_), HasReserved(_)
HasTagOrChunks(v) ==
    CASE v[1] = "t" -> TRUE
      [] v[1] \in {"b", "s"} -> v[3] = 2
      [] v[1] = "[" -> \E i \in 1..Len(v[2]) : HasTagOrChunks(v[2][i])
      [] v[1] = "{" -> \E i \in 1..Len(v[2]) : HasTagOrChunks(v[2][i][1]) \/ HasTagOrChunks(v[2][i][2])
      [] OTHER -> FALSE
(* two-byte simple values that RFC 7049 does not assign *)
HasReserved(v) ==
    CASE v[1] = "t" -> HasReserved(v[3])
      [] v[1] = "x" -> v[3] = 0
      [] v[1] = "[" -> \E i \in 1..Len(v[2]) : HasReserved(v[2][i])
      [] v[1] = "{" -> \E i \in 1..Len(v[2]) : HasReserved(v[2][i][1]) \/ HasReserved(v[2][i][2])
      [] OTHER -> FALSE

(* a trailing zero of a text is part of its spelling where C strings are meant *)
Bare(bs) == IF bs # <<>> /\ bs[Len(bs)] = 0 THEN SubSeq(bs, 1, Len(bs) - 1) ELSE bs
FieldIx(fs, name) == {i \in 1..Len(fs) : fs[i][1] = name}

RECURSIVE Den(_, _)
(* elements of a list-like target: from a list, or from the bytes of a string *)
Elements(T, v) ==
    IF v[1] = "[" THEN [i \in 1..Len(v[2]) |-> Den(T, v[2][i])]
    ELSE IF v[1] \notin {"b", "s"} THEN <<No>>
    ELSE IF T[1] = "int" THEN [i \in 1..Len(v[2]) |-> <<"|", ByteInt(T[2], v[2][i])>>]
    ELSE IF T[1] = "chr" THEN [i \in 1..Len(v[2]) |-> <<"|", <<"c", B1(v[2][i])>>>>]
    ELSE IF T[1] = "real" THEN [i \in 1..Len(v[2]) |-> <<"|", <<"fu", T[2], B1(v[2][i])>>>>]
    ELSE <<Star>>

DenCls(T, v) ==
    LET fs == T[2]
        ps == v[2]
        key(p) == Bare(p[1][2])
        ix == [i \in 1..Len(ps) |-> IF ps[i][1][1] = "s" THEN FieldIx(fs, key(ps[i])) ELSE {}]
        one(i) == CHOOSE k \in ix[i] : TRUE
        odd == \E i \in 1..Len(ps) : ps[i][1][1] \in {"b", "[", "t"}     \* keys spelled as something else than text
        loose == ~Opt.sk /\ \E i \in 1..Len(ps) : ix[i] # {} /\ fs[one(i)][2][1] = "skip" /\ HasTagOrChunks(ps[i][2])
    IN  IF v[1] # "{" THEN No
        ELSE IF loose THEN Star
        ELSE IF \E i \in 1..Len(ps) : ix[i] = {} /\ ps[i][1][1] \notin {"b", "[", "t"} THEN No
        ELSE IF odd THEN Star
        ELSE IF \E i, j \in 1..Len(ps) : i < j /\ one(i) = one(j) THEN No
        ELSE LET val(k) == LET is == {i \in 1..Len(ps) : one(i) = k} IN
                           IF fs[k][2][1] = "skip"
                           THEN <<"b", "skip">>
                           ELSE IF is = {} THEN fs[k][3] ELSE Den(fs[k][2], ps[CHOOSE i \in is : TRUE][2])
                 rs == [k \in 1..Len(fs) |-> val(k)]
             IN Join(rs, <<"(", Plain(rs)>>)

DenMap(T, v) ==
    IF v[1] # "{" THEN No
    ELSE LET ks == [i \in 1..Len(v[2]) |-> Den(T[2], v[2][i][1])]
             vs == [i \in 1..Len(v[2]) |-> Den(T[3], v[2][i][2])]
             ps == [i \in 1..Len(v[2]) |-> <<Un(ks[i]), Un(vs[i])>>]
         IN  IF (\E i \in 1..Len(ks) : Bad(ks[i]) \/ Bad(vs[i])) THEN No
             ELSE IF T[1] = "mmap" THEN Join(ks \o vs, <<"W", ps>>)
             ELSE IF ~Distinct(Plain(ks)) /\ ~Scalar(T[3]) THEN Star
             ELSE IF T[2][1] = "real" /\ Len(ps) > 1 THEN Star
             ELSE Join(ks \o vs, <<"M", LastWins(ps)>>)

Listy == {"seq", "stk", "top", "bag", "set", "arr", "cap"}
DenList(T, v) ==
    LET rs == Elements(T[2], v)
        es == Plain(rs)
        wrap(x) == IF v[1] \in {"b", "s"} THEN <<"|", x>> ELSE x
        mk(x) == LET r == Join(rs, x) IN IF r[1] \in {"!", "*", "|"} THEN r ELSE wrap(r)
    IN  IF v[1] \notin {"[", "b", "s"} THEN No
        ELSE CASE T[1] \in {"seq", "stk"} -> mk(<<"[", es>>)
               [] T[1] = "top" -> mk(<<"[", [i \in 1..Len(es) |-> es[Len(es) + 1 - i]]>>)
               [] T[1] = "bag" -> mk(<<"B", es>>)
               [] T[1] = "set" -> IF T[2][1] = "real" /\ Len(es) > 1 THEN (LET r == mk(<<"S", es>>) IN IF Bad(r) THEN r ELSE Star) ELSE mk(<<"S", Uniq(es)>>)
               [] T[1] = "cap" -> IF Len(rs) > T[3] THEN No ELSE mk(<<"[", es>>)
               [] T[1] = "arr" -> IF Len(rs) > T[3] THEN No ELSE mk(<<"[", [i \in 1..T[3] |-> IF i <= Len(es) THEN es[i] ELSE T[4]]>>)

DenInt(name, v) ==
    CASE v[1] = "u" -> IF Le(v[2], MaxOf(name)) THEN <<"u", v[2]>>
                       ELSE IF name = "i8" /\ Len(v[2]) = 1 THEN Star          \* signed char doubles as a byte
                       ELSE No
      [] v[1] = "i" -> IF Signed(name) /\ Le(v[2], MaxOf(name)) THEN <<"i", v[2]>> ELSE No
      [] OTHER -> No
DenChr(max, v) ==
    CASE v[1] = "u" -> IF max = 255 THEN (IF Len(v[2]) <= 1 THEN <<"c", v[2]>> ELSE No)
                       ELSE IF max = 65535 THEN (IF Len(v[2]) <= 2 THEN <<"c", v[2]>> ELSE No)
                       ELSE IF Le(v[2], <<16, 255, 255>>) THEN <<"c", v[2]>> ELSE IF Len(v[2]) <= 4 THEN Star ELSE No
      [] v[1] = "i" -> Star
      [] OTHER -> No
(* the value held by a string of bits: padding count, then bits from the highest *)
Bit(b, i) == 48 + ((b \div (2 ^ i)) % 2)
BitText(bs) == [k \in 1..(8 * Len(bs)) |-> Bit(bs[(k - 1) \div 8 + 1], 7 - ((k - 1) % 8))]
DenBits(n, v) ==
    IF v[1] # "b" THEN No
    ELSE IF v[3] = 2 THEN No            \* read in one piece
    ELSE LET m == (n + 7) \div 8
             pad == 8 * m - n IN
         IF Len(v[2]) # m + 1 \/ (v[2] # <<>> /\ v[2][1] # pad) THEN No
         ELSE LET t == BitText(Tail(v[2])) IN
              IF \E i \in 1..pad : t[i] = 49 THEN Star ELSE <<"s", SubSeq(t, pad + 1, pad + n)>>

Den0(T, v) ==       \* v is not a tag
    CASE T[1] = "int"  -> DenInt(T[2], v)
      [] T[1] = "real" -> CASE v[1] = "f" -> <<"fl", T[2], v[2]>>
                            [] v[1] = "u" -> <<"fu", T[2], v[2]>>
                            [] v[1] = "i" -> <<"fi", T[2], v[2]>>
                            [] OTHER -> No
      [] T[1] = "bool" -> IF v[1] \in {"true", "false"} THEN <<"b", v[1]>> ELSE No
      [] T[1] = "null" -> IF v[1] = (IF Len(T) > 1 THEN "undef" ELSE "null") THEN <<"~">> ELSE No
      [] T[1] = "str"  -> IF T[2] = 8 THEN (IF v[1] \in {"s", "b"} THEN <<"s", v[2]>> ELSE IF v[1] = "[" THEN Star ELSE No)
                          ELSE IF v[1] = "[" THEN (LET rs == [i \in 1..Len(v[2]) |-> Den(<<"chr", IF T[2] = 16 THEN 65535 ELSE 1114111>>, v[2][i])] IN
                                                   Join(rs, <<"w", [i \in 1..Len(rs) |-> IF rs[i][1] = "c" THEN rs[i][2] ELSE <<>>], T[2]>>))
                          ELSE IF v[1] \in {"s", "b"} THEN Star ELSE No
      [] T[1] = "chr"  -> DenChr(T[2], v)
      [] T[1] = "cstr" -> IF v[1] = "null" THEN <<"~">>
                          ELSE IF v[1] \in {"s", "b"} THEN (IF \E i \in 1..Len(Bare(v[2])) : v[2][i] = 0 THEN Star ELSE <<"?", <<"s", Bare(v[2])>>>>)
                          ELSE IF v[1] = "[" THEN Star ELSE No
      [] T[1] = "carr" -> IF v[1] = "[" THEN Star
                          ELSE IF v[1] \in {"s", "b"} /\ Len(v[2]) <= T[2] THEN <<"s", [i \in 1..T[2] |-> IF i <= Len(v[2]) THEN v[2][i] ELSE T[3]]>>
                          ELSE No
      [] T[1] = "bits" -> DenBits(T[2], v)
      [] T[1] = "enum" -> IF v[1] = "u" THEN (LET is == {i \in 1..Len(T[3]) : T[3][i] = v[2]} IN IF is = {} THEN No ELSE <<"e", T[2][CHOOSE i \in is : TRUE]>>) ELSE No
      [] T[1] \in Listy -> DenList(T, v)
      [] T[1] = "tup" -> IF v[1] # "[" THEN No
                         ELSE IF Len(v[2]) # Len(T[2]) THEN No
                         ELSE LET rs == [i \in 1..Len(v[2]) |-> Den(T[2][i], v[2][i])]
                                  r == Join(rs, <<"[", Plain(rs)>>) IN
                              IF v[3] = 2 /\ ~Bad(r) THEN Star ELSE r
      [] T[1] = "opt" -> IF v[1] = (IF T[3] = "u" THEN "undef" ELSE "null") THEN <<"~">>
                         ELSE LET r == Den(T[2], v) IN
                              IF r[1] \in {"!", "*"} THEN r ELSE IF r[1] = "|" THEN <<"|", <<"?", r[2]>>>> ELSE <<"?", r>>
      [] T[1] \in {"var", "uvar"} ->
            IF v[1] # "[" THEN No
            ELSE IF Len(v[2]) # 2 THEN No
            ELSE LET k == v[2][1] IN
                 IF k[1] = "t" THEN Star
                 ELSE IF k[1] # "u" \/ (k[1] = "u" /\ (Len(k[2]) > 1 \/ Num(k[2]) >= Len(T[2]))) THEN No
                 ELSE LET n == Num(k[2])
                          r == Den(T[2][n + 1], v[2][2]) IN
                      IF r[1] = "!" THEN r
                      ELSE IF v[3] = 2 \/ r[1] = "*" THEN Star
                      ELSE IF r[1] = "|" THEN <<"|", <<"v", n, r[2]>>>> ELSE <<"v", n, r>>
      [] T[1] \in {"map", "mmap"} -> DenMap(T, v)
      [] T[1] = "cls" -> DenCls(T, v)
Den(T, v) ==
    IF v[1] # "t" THEN Den0(T, v)
    ELSE IF v[3][1] = "t" \/ T[1] \in {"bool", "null"} THEN Star         \* one tag is looked through
    ELSE IF T[1] \in {"opt", "cstr"} /\ v[3][1] \in {"null", "undef"} THEN Star
    ELSE Den0(T, v[3])

(* an item that is not one, but has tags or chunked strings in it *)
Phase(z) == IF z.m = "err" /\ ~Opt.sk /\ (\E i \in 1..Len(z.ev) : z.ev[i][1] \in {"t", "*"}) THEN "loose" ELSE z.m

(* what a machine state in which the input has ended means to T *)
Mean(T, t) == IF HasReserved(t) THEN Star ELSE Den(T, t)

(* members as a writer must list them: registered names in order, none that is ignored *)
RECURSIVE COrdered(_, _)
IndexOf(fs, name) == LET is == FieldIx(fs, name) IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
COrdered(T, v) ==
    CASE T[1] = "cls" -> v[1] = "{" =>
            LET nm == [i \in 1..Len(v[2]) |-> IF v[2][i][1][1] = "s" THEN IndexOf(T[2], Bare(v[2][i][1][2])) ELSE 0] IN
            /\ \A i \in 1..Len(nm) : nm[i] > 0 /\ T[2][nm[i]][2][1] # "skip" /\ COrdered(T[2][nm[i]][2], v[2][i][2])
            /\ \A i \in 1..Len(nm)-1 : nm[i] < nm[i+1]
      [] T[1] \in Listy -> v[1] = "[" => \A i \in 1..Len(v[2]) : COrdered(T[2], v[2][i])
      [] T[1] = "opt" -> v[1] \notin {"null", "undef"} => COrdered(T[2], v)
      [] T[1] \in {"map", "mmap"} -> v[1] = "{" => \A i \in 1..Len(v[2]) : COrdered(T[3], v[2][i][2])
      [] OTHER -> TRUE
=============================================================================
