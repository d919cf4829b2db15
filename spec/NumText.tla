------------------------------ MODULE NumText ------------------------------
(* Numbers as the built-in arithmetic types read them, one byte per step.   *)
(* An integer target takes the longest prefix that spells an integer and    *)
(* leaves what follows alone; a floating-point target takes a JSON number   *)
(* or one of the quoted spellings the writer uses for what JSON cannot say. *)
EXTENDS JsonText

NInit(kind) == [kind |-> kind, m |-> "ws", buf |-> <<>>, n |-> 0, j |-> JInit, w |-> {}]
NTerminal(s) == s.m \in {"done", "err"}

(* the spellings of what JSON has no numbers for *)
Special == { <<34,110,97,110,34>>, <<34,45,110,97,110,34>>, <<34,105,110,102,34>>, <<34,45,105,110,102,34>> }

Put(s, b, m) == [s EXCEPT !.m = m, !.buf = Append(@, b), !.n = @ + 1]
IntStep(s, b) ==
    CASE s.m = "ws" -> IF JsonSpace(b) THEN [s EXCEPT !.n = @ + 1]
                       ELSE IF b = 45 /\ s.kind = "s" THEN Put(s, b, "-")
                       ELSE IF b = 48 THEN Put(s, b, "z")
                       ELSE IF Digit19(b) THEN Put(s, b, "d") ELSE [s EXCEPT !.m = "err"]
      [] s.m = "-" -> IF b = 48 THEN Put(s, b, "z") ELSE IF Digit19(b) THEN Put(s, b, "d") ELSE [s EXCEPT !.m = "err"]
      [] s.m = "z" -> [s EXCEPT !.m = "done"]
      [] s.m = "d" -> IF Digit(b) THEN Put(s, b, "d") ELSE [s EXCEPT !.m = "done"]

(* m = "q": inside a quoted spelling; m = "ws": the JSON machine decides *)
Lift(s, j, b) == [s EXCEPT !.j = j, !.n = j.n, !.m = IF j.m = "err" \/ j.stk # <<>> THEN "err" ELSE IF j.m = "done" THEN "done" ELSE "ws"]
RealStep(s, b) ==
    IF s.m = "q"
    THEN LET t == Append(s.buf, b) IN
         IF \E q \in Special : Len(t) <= Len(q) /\ SubSeq(q, 1, Len(t)) = t
         THEN Put(s, b, IF t \in Special THEN "done" ELSE "q")
         ELSE [s EXCEPT !.m = "err"]
    ELSE IF s.j.m = "val" /\ b = 34 /\ ~Opt.jn THEN Put(s, b, "q")
    ELSE IF s.j.m = "val" /\ b \in {34, 91, 123, 110, 116, 102} THEN [s EXCEPT !.m = "err"]
    ELSE Lift(s, JStep(s.j, b), b)

NStep(s, b) == IF NTerminal(s) THEN s ELSE IF s.kind = "r" THEN RealStep(s, b) ELSE IntStep(s, b)
NEof(s) ==
    IF NTerminal(s) THEN s
    ELSE IF s.kind = "r" THEN (IF s.m = "q" THEN [s EXCEPT !.m = "err"] ELSE Lift(s, JEof(s.j), 0))
    ELSE [s EXCEPT !.m = IF s.m \in {"z", "d"} THEN "done" ELSE "err"]
RECURSIVE NFeed(_, _, _)
NFeed(s, bs, i) == IF i > Len(bs) \/ NTerminal(s) THEN s ELSE NFeed(NStep(s, bs[i]), bs, i + 1)

(* the types, with the greatest magnitude each can hold: <<positive, negative>> *)
D(n) == CASE n = "i8" -> << <<49,50,55>>, <<49,50,56>> >>
          [] n = "i16" -> << <<51,50,55,54,55>>, <<51,50,55,54,56>> >>
          [] n = "i32" -> << <<50,49,52,55,52,56,51,54,52,55>>, <<50,49,52,55,52,56,51,54,52,56>> >>
          [] n \in {"i64", "i64l"} -> << <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, S64Min >>
          [] n = "u8" -> << <<50,53,53>>, <<48>> >>
          [] n = "u16" -> << <<54,53,53,51,53>>, <<48>> >>
          [] n = "u32" -> << <<52,50,57,52,57,54,55,50,57,53>>, <<48>> >>
          [] n = "u64" -> << U64Max, <<48>> >>
Signed == {"i8", "i16", "i32", "i64", "i64l"}
Unsigned == {"u8", "u16", "u32", "u64"}
Holds(t, text) == IF text[1] = 45 THEN DecLeq(Mag(text), D(t)[2]) ELSE DecLeq(text, D(t)[1])
(* outcome of an integer target: the types that hold the number *)
Types(s) == IF s.m # "done" \/ s.kind = "r" THEN {}
            ELSE {t \in (IF s.kind = "s" THEN Signed ELSE Unsigned) : Holds(t, s.buf)}
TextOf(s) == IF s.m # "done" THEN <<>>
             ELSE IF s.kind = "r" /\ Len(s.j.ev) = 1 THEN s.j.ev[1][2] ELSE s.buf
(* wider types hold whatever narrower ones do *)
NSane(s) == LET t == Types(s) IN
    /\ "i8" \in t => {"i16", "i32", "i64"} \subseteq t
    /\ "i16" \in t => "i32" \in t
    /\ "i32" \in t => "i64" \in t
    /\ "u8" \in t => "u16" \in t
    /\ "u16" \in t => "u32" \in t
    /\ "u32" \in t => "u64" \in t
=============================================================================
