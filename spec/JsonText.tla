------------------------------ MODULE JsonText ------------------------------
(* A JSON reader as a deterministic push-down machine that consumes one     *)
(* byte per step.  It is the specification of what the library's reader     *)
(* must accept (RFC 8259 plus the dialect features switched on in Opt) and  *)
(* of the events (the denoted value, in document order) it must deliver.    *)
(*                                                                          *)
(* Opt: cm - comments, ts - trailing separators, jn - JavaScript NaNs,      *)
(*      sep - separator byte (32: separators are white space), div - the    *)
(*      key/value divider, dep - containers nest less deep (0: no limit),   *)
(*      key - how keys are spelled: "q" quoted strings, "b" any value bare  *)
(*      (strings quoted), "u" unquoted text up to white space or divider,   *)
(*      top - the top level is the inside of an object (bare classes)       *)
EXTENDS Bytes

CONSTANT Opt

(* state: m   mode                                                          *)
(*        stk open containers, innermost last ("a"/"o")                     *)
(*        ev  events delivered                                              *)
(*        buf bytes of the string or number being read                      *)
(*        x, lb, ub  escape accumulator / pending UTF-8 continuation        *)
(*        hi  pending high surrogate                                        *)
(*        k   the value being read is a key                                 *)
(*        r   mode to return to after a comment                             *)
(*        n   bytes consumed                                                *)
JInit == [m |-> IF Opt.top THEN "bare" ELSE "val", stk |-> IF Opt.top THEN <<"t">> ELSE <<>>,
          ev |-> IF Opt.top THEN << <<"{">> >> ELSE <<>>, buf |-> <<>>, x |-> 0, lb |-> 0, ub |-> 0,
          hi |-> 0, k |-> FALSE, r |-> "", n |-> 0]

(* an open container that is itself a key *)
IsList(c) == c \in {"a", "A"}
IsObj(c)  == c \in {"o", "O"}

Terminal(s) == s.m \in {"done", "err"}

Fail(s)  == [s EXCEPT !.m = "err"]
Take(s)  == [s EXCEPT !.n = @ + 1]
Go(s, m) == [s EXCEPT !.m = m, !.n = @ + 1]

(* a value has been completed; it may have been a key *)
After(s) == IF s.k THEN [s EXCEPT !.m = "colon", !.k = FALSE]
            ELSE [s EXCEPT !.m = IF s.stk = <<>> THEN "done" ELSE IF s.stk = <<"t">> THEN "bare" ELSE "sep"]
Emit(s, e) == [s EXCEPT !.ev = Append(@, IF s.k THEN <<"kn">> \o e ELSE e)]

Open(s, c) ==
    IF Opt.dep > 0 /\ Len(s.stk) + 1 >= Opt.dep THEN [Fail(s) EXCEPT !.r = "depth"]
    ELSE [Emit(s, <<IF c = "a" THEN "[" ELSE "{">>) EXCEPT
            !.m = IF c = "a" THEN "arr0" ELSE "obj0", !.k = FALSE, !.n = @ + 1,
            !.stk = Append(@, IF ~s.k THEN c ELSE IF c = "a" THEN "A" ELSE "O")]
Close(s, c) ==
    IF s.stk # <<>> /\ (IF c = "a" THEN IsList(s.stk[Len(s.stk)]) ELSE IsObj(s.stk[Len(s.stk)]))
    THEN After([s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.ev = Append(@, <<IF c = "a" THEN "]" ELSE "}">>), !.n = @ + 1,
                         !.k = s.stk[Len(s.stk)] \in {"A", "O"}])
    ELSE Fail(s)

IsSep(b)  == b = Opt.sep

Lits == [ null  |-> <<110,117,108,108>>, true |-> <<116,114,117,101>>, false |-> <<102,97,108,115,101>>,
          NaN |-> <<78,97,78>>, Infinity |-> <<73,110,102,105,110,105,116,121>> ]

(* the first byte of a value *)
ValueStart(s, b) ==
    CASE b = 91  -> Open(s, "a")
      [] b = 123 -> Open(s, "o")
      [] b = 34  -> [s EXCEPT !.m = "str", !.buf = <<>>, !.n = @ + 1]
      [] b = 110 -> [s EXCEPT !.m = "lit", !.r = "null",  !.x = 1, !.n = @ + 1]
      [] b = 116 -> [s EXCEPT !.m = "lit", !.r = "true",  !.x = 1, !.n = @ + 1]
      [] b = 102 -> [s EXCEPT !.m = "lit", !.r = "false", !.x = 1, !.n = @ + 1]
      [] b = 45  -> [s EXCEPT !.m = "n-", !.buf = <<b>>, !.n = @ + 1]
      [] b = 48  -> [s EXCEPT !.m = "nz", !.buf = <<b>>, !.n = @ + 1]
      [] Digit19(b) -> [s EXCEPT !.m = "ni", !.buf = <<b>>, !.n = @ + 1]
      [] b = 78 /\ Opt.jn -> [s EXCEPT !.m = "lit", !.r = "NaN", !.buf = <<>>, !.x = 1, !.n = @ + 1]
      [] b = 73 /\ Opt.jn -> [s EXCEPT !.m = "lit", !.r = "Infinity", !.buf = <<>>, !.x = 1, !.n = @ + 1]
      [] OTHER -> Fail(s)

(* an unquoted key: as it stands up to white space or the divider, any of   *)
(* which may be escaped                                                     *)
UkEnd(s, m) == [s EXCEPT !.ev = Append(@, <<"k", s.buf>>), !.buf = <<>>, !.k = FALSE, !.m = m, !.n = @ + 1]
UkStep(s, b) ==
    IF b = Opt.div THEN UkEnd(s, "val")
    ELSE IF JsonSpace(b) THEN UkEnd(s, "colon")
    ELSE IF b = 92 THEN Go(s, "esc")
    ELSE IF b < 32 THEN Fail(s)
    ELSE IF b < 128 THEN [s EXCEPT !.m = "ukey", !.buf = Append(@, b), !.n = @ + 1]
    ELSE LET u == Utf8Lead(b) IN
         IF u[1] = 0 THEN Fail(s)
         ELSE [s EXCEPT !.m = "u8", !.x = u[1], !.lb = u[2], !.ub = u[3], !.buf = Append(@, b), !.n = @ + 1]
KeyStart(s, b) ==
    LET t == [s EXCEPT !.k = TRUE, !.buf = <<>>] IN
    IF Opt.key = "u" THEN UkStep(t, b)
    ELSE IF b = 34 THEN [t EXCEPT !.m = "str", !.n = @ + 1]
    ELSE IF Opt.key = "b" THEN ValueStart(t, b)
    ELSE Fail(s)
(* where a string goes on after an escape or a multi-byte character *)
StrMode(s) == IF s.k /\ Opt.key = "u" THEN "ukey" ELSE "str"

(* classification of a complete number; the value itself is its text *)
Mag(t) == IF t[1] = 45 THEN Tail(t) ELSE t
IntegerText(t) == \A i \in 1..Len(t) : t[i] \in 48..57 \cup {45}
NumberEvent(t) ==
    IF ~IntegerText(t) THEN <<"r", t>>
    ELSE IF t[1] = 45 THEN (IF DecLeq(Mag(t), S64Min) THEN <<"i", t>> ELSE <<"r", t>>)
    ELSE IF DecLeq(t, U64Max) THEN <<"u", t>> ELSE <<"r", t>>
NumberEnd(s) == After(Emit(s, NumberEvent(s.buf)))
NumberModes == {"nz", "ni", "nf", "ne"}

StringEnd(s) ==
    After([s EXCEPT !.ev = Append(@, <<IF s.k THEN "k" ELSE "s", s.buf>>), !.buf = <<>>, !.n = @ + 1])

PutCode(s, c) == [s EXCEPT !.buf = @ \o Utf8(c), !.m = StrMode(s), !.x = 0, !.hi = 0, !.n = @ + 1]
EscCode(b) == CASE b = 34 -> 34 [] b = 92 -> 92 [] b = 47 -> 47 [] b = 98 -> 8 [] b = 102 -> 12
                [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> -1
(* an escape is looked at as a whole: it is refused once its last digit has *)
(* been read                                                                *)
HexDone(s, v) ==
    IF s.hi = 0
    THEN IF v \in 55296..56319 THEN [s EXCEPT !.m = "hi1", !.hi = v, !.x = 0, !.n = @ + 1]
         ELSE IF v \in 56320..57343 THEN Fail(Take(s))
         ELSE PutCode(s, v)
    ELSE IF v \in 56320..57343 THEN PutCode(s, 65536 + (s.hi - 55296) * 1024 + (v - 56320)) ELSE Fail(Take(s))

StrStep(s, b) ==
    CASE s.m = "ukey" -> UkStep(s, b)
      [] s.m = "str" ->
            IF b = 34 THEN StringEnd(s)
            ELSE IF b = 92 THEN Go(s, "esc")
            ELSE IF b < 32 THEN Fail(s)
            ELSE IF b < 128 THEN [s EXCEPT !.buf = Append(@, b), !.n = @ + 1]
            ELSE LET u == Utf8Lead(b) IN
                 IF u[1] = 0 THEN Fail(s)
                 ELSE [s EXCEPT !.m = "u8", !.x = u[1], !.lb = u[2], !.ub = u[3], !.buf = Append(@, b), !.n = @ + 1]
      [] s.m = "u8" ->
            IF b < s.lb \/ b > s.ub THEN Fail(s)
            ELSE [s EXCEPT !.m = IF s.x = 1 THEN StrMode(s) ELSE "u8", !.x = @ - 1, !.lb = 128, !.ub = 191,
                           !.buf = Append(@, b), !.n = @ + 1]
      [] s.m = "esc" ->
            IF b = 117 THEN [s EXCEPT !.m = "u0", !.x = 0, !.n = @ + 1]
            ELSE IF EscCode(b) >= 0 THEN PutCode(s, EscCode(b))
            ELSE IF StrMode(s) = "ukey" /\ (b = 32 \/ b = Opt.div) THEN PutCode(s, b)
            ELSE Fail(s)
      [] s.m \in {"u0", "u1", "u2", "u3"} ->
            IF HexVal(b) < 0 THEN Fail(s)
            ELSE LET v == s.x * 16 + HexVal(b) IN
                 IF s.m = "u3" THEN HexDone(s, v)
                 ELSE [s EXCEPT !.x = v, !.m = CASE s.m = "u0" -> "u1" [] s.m = "u1" -> "u2" [] OTHER -> "u3", !.n = @ + 1]
      [] s.m = "hi1" -> IF b = 92 THEN Go(s, "hi2") ELSE Fail(s)
      [] s.m = "hi2" -> IF b = 117 THEN [s EXCEPT !.m = "u0", !.x = 0, !.n = @ + 1] ELSE Fail(Take(s))
StrModes == {"str", "ukey", "u8", "esc", "u0", "u1", "u2", "u3", "hi1", "hi2"}

LitStep(s, b) ==
    LET t == Lits[s.r] IN
    IF b # t[s.x + 1] THEN Fail(s)
    ELSE IF s.x + 1 < Len(t) THEN [s EXCEPT !.x = @ + 1, !.n = @ + 1]
    ELSE After(Take(Emit(s, IF s.r \in {"NaN", "Infinity"} THEN <<"r", s.buf \o t>> ELSE <<s.r>>)))

CommentStep(s, b) ==
    CASE s.m = "c/" -> IF b = 42 THEN Go(s, "c*") ELSE IF b = 47 THEN Go(s, "cl") ELSE Fail(s)
      [] s.m = "cl" -> IF b = 10 THEN Go(s, s.r) ELSE Take(s)
      [] s.m = "c*" -> IF b = 42 THEN Go(s, "c*2") ELSE Take(s)
      [] s.m = "c*2" -> IF b = 47 THEN Go(s, s.r) ELSE IF b = 42 THEN Take(s) ELSE Go(s, "c*")
CommentModes == {"c/", "cl", "c*", "c*2"}

(* bare members end where the input does, or at a zero byte *)
BareEnd(s) == [s EXCEPT !.m = "done", !.stk = <<>>, !.ev = Append(@, <<"}">>)]

(* modes between tokens *)
GapStep(s, b) ==
    IF JsonSpace(b) THEN Take(s)
    ELSE IF b = 47 /\ Opt.cm THEN [s EXCEPT !.m = "c/", !.r = s.m, !.n = @ + 1]
    ELSE CASE s.m = "val"  -> ValueStart(s, b)
           [] s.m = "arr0" -> IF b = 93 THEN Close(s, "a") ELSE ValueStart(s, b)
           [] s.m = "arrv" -> IF b = 93 /\ Opt.ts THEN Close(s, "a") ELSE ValueStart(s, b)
           [] s.m = "obj0" -> IF b = 125 THEN Close(s, "o") ELSE KeyStart(s, b)
           [] s.m = "objk" -> IF b = 125 /\ Opt.ts THEN Close(s, "o") ELSE KeyStart(s, b)
           [] s.m = "bare" -> IF b = 0 THEN BareEnd(s) ELSE KeyStart(s, b)
           [] s.m = "colon" -> IF b = Opt.div THEN Go(s, "val") ELSE Fail(s)
           [] s.m = "sep" ->
                LET top == s.stk[Len(s.stk)] IN
                IF Opt.sep = 32        \* what does not close the container begins the next element
                THEN IF b = 93 /\ IsList(top) THEN Close(s, "a")
                     ELSE IF b = 125 /\ IsObj(top) THEN Close(s, "o")
                     ELSE IF IsList(top) THEN ValueStart(s, b) ELSE KeyStart(s, b)
                ELSE IF b = 93 THEN Close(s, "a")
                ELSE IF b = 125 THEN Close(s, "o")
                ELSE IF IsSep(b) THEN Go(s, IF IsList(top) THEN "arrv" ELSE "objk")
                ELSE Fail(s)

(* one byte; a byte that ends a number is then looked at again *)
Step0(s, b) ==
    IF s.m \in StrModes THEN StrStep(s, b)
    ELSE IF s.m = "lit" THEN LitStep(s, b)
    ELSE IF s.m \in CommentModes THEN CommentStep(s, b)
    ELSE GapStep(s, b)
NumStep(s, b) ==
    LET put(m) == [s EXCEPT !.m = m, !.buf = Append(@, b), !.n = @ + 1]
        stop   == LET t == NumberEnd(s) IN IF Terminal(t) THEN t ELSE Step0(t, b)
    IN  CASE s.m = "n-" -> IF b = 48 THEN put("nz") ELSE IF Digit19(b) THEN put("ni")
                           ELSE IF b = 78 /\ Opt.jn THEN [s EXCEPT !.m = "lit", !.r = "NaN", !.x = 1, !.n = @ + 1]
                           ELSE IF b = 73 /\ Opt.jn THEN [s EXCEPT !.m = "lit", !.r = "Infinity", !.x = 1, !.n = @ + 1]
                           ELSE Fail(s)
          [] s.m = "nz" -> IF b = 46 THEN put("nf0") ELSE IF b \in {69, 101} THEN put("ne0") ELSE stop
          [] s.m = "ni" -> IF Digit(b) THEN put("ni") ELSE IF b = 46 THEN put("nf0") ELSE IF b \in {69, 101} THEN put("ne0") ELSE stop
          [] s.m = "nf0" -> IF Digit(b) THEN put("nf") ELSE Fail(s)
          [] s.m = "nf" -> IF Digit(b) THEN put("nf") ELSE IF b \in {69, 101} THEN put("ne0") ELSE stop
          [] s.m = "ne0" -> IF b \in {43, 45} THEN put("nes") ELSE IF Digit(b) THEN put("ne") ELSE Fail(s)
          [] s.m = "nes" -> IF Digit(b) THEN put("ne") ELSE Fail(s)
          [] s.m = "ne" -> IF Digit(b) THEN put("ne") ELSE stop
NumModes == {"n-", "nz", "ni", "nf0", "nf", "ne0", "nes", "ne"}

JStep(s, b) == IF Terminal(s) THEN s ELSE IF s.m \in NumModes THEN NumStep(s, b) ELSE Step0(s, b)

(* the input ends *)
JEof(s) ==
    IF Terminal(s) THEN s
    ELSE IF s.m \in NumberModes
         THEN LET t == NumberEnd(s) IN IF t.m = "done" THEN t ELSE IF t.m = "bare" THEN BareEnd(t) ELSE Fail(t)
    ELSE IF s.m = "bare" THEN BareEnd(s)
    ELSE Fail(s)

RECURSIVE JFeed(_, _, _)
JFeed(s, bs, i) == IF i > Len(bs) \/ Terminal(s) THEN s ELSE JFeed(JStep(s, bs[i]), bs, i + 1)

JRun(bs) == JEof(JFeed(JInit, bs, 1))

-----------------------------------------------------------------------------
(* sanity of the machine, checked in every configuration *)
Count(ev, t) == Len(SelectSeq(ev, LAMBDA e : e[1] = t \/ (e[1] = "kn" /\ e[2] = t)))
JTypeOK(s) ==
    /\ s.n >= 0
    /\ s.m = "done" => s.stk = <<>>
(* the open containers are exactly the unclosed ones among the events *)
JBalanced(s) ==
    Count(s.ev, "[") + Count(s.ev, "{") - Count(s.ev, "]") - Count(s.ev, "}") = Len(s.stk)
=============================================================================
