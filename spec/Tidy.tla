-------------------------------- MODULE Tidy --------------------------------
(* Pretty-printing as a machine over bytes: what has been written after     *)
(* every byte of a JSON text, whoever delivers the bytes and however.       *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Tab, Pad        \* units of indentation per level, and of what

Blank == {9, 10, 13, 32}
RECURSIVE Times(_, _)
Times(n, b) == IF n = 0 THEN <<>> ELSE IF n % 2 = 1 THEN <<b>> \o Times(n - 1, b) ELSE LET h == Times(n \div 2, b) IN h \o h
Line(lv) == <<10>> \o (IF lv < 1 THEN <<>> ELSE Times(lv * Tab, Pad))

(* m: "out" between tokens, "word" in a number or name, "str", "esc" after  *)
(* a backslash; p: the last token outside; lv: depth; w: what is written    *)
PInit == [m |-> "out", p |-> "", lv |-> 0, w |-> <<>>]
Lead(t) == IF t.p \in {"open", ","} THEN Line(t.lv) ELSE <<>>
PStep(t, b) ==
    CASE t.m = "esc" -> [t EXCEPT !.m = "str", !.w = Append(@, b)]
      [] t.m = "str" -> [t EXCEPT !.m = IF b = 92 THEN "esc" ELSE IF b = 34 THEN "out" ELSE "str", !.w = Append(@, b)]
      [] b \in Blank -> [t EXCEPT !.m = "out"]
      [] b = 34 -> [t EXCEPT !.m = "str", !.p = "val", !.w = @ \o Lead(t) \o <<b>>]
      [] b \in {91, 123} -> [t EXCEPT !.m = "out", !.p = "open", !.lv = @ + 1, !.w = @ \o Lead(t) \o <<b>>]
      [] b \in {93, 125} -> [t EXCEPT !.m = "out", !.p = "val", !.lv = IF @ = 0 THEN 0 ELSE @ - 1, !.w = @ \o (IF t.p = "open" THEN <<>> ELSE Line(t.lv - 1)) \o <<b>>]
      [] b = 44 -> [t EXCEPT !.m = "out", !.p = ",", !.w = Append(@, b)]
      [] b = 58 -> [t EXCEPT !.m = "out", !.p = ":", !.w = @ \o <<b, 32>>]
      [] t.m = "word" -> [t EXCEPT !.w = Append(@, b)]
      [] OTHER -> [t EXCEPT !.m = "word", !.p = "val", !.w = @ \o Lead(t) \o <<b>>]
RECURSIVE PFeed(_, _, _)
PFeed(t, bs, i) == IF i > Len(bs) THEN t ELSE PFeed(PStep(t, bs[i]), bs, i + 1)
PRun(bs) == PFeed(PInit, bs, 1).w

(* the text without the white space between tokens *)
RECURSIVE Bare(_, _, _)
Bare(bs, i, m) ==
    IF i > Len(bs) THEN <<>>
    ELSE IF m = "out" /\ bs[i] \in Blank THEN Bare(bs, i + 1, m)
    ELSE <<bs[i]>> \o Bare(bs, i + 1, CASE m = "out" -> IF bs[i] = 34 THEN "str" ELSE "out"
                                        [] m = "esc" -> "str"
                                        [] OTHER -> IF bs[i] = 92 THEN "esc" ELSE IF bs[i] = 34 THEN "out" ELSE "str")
(* positions of w where a token starts a line, judged apart from the machine: *)
(* every member and element, and every end that ends something               *)
Outside(w) == {i \in 1..Len(w) : Cardinality({j \in 1..(i - 1) : w[j] = 34 /\ ~(\E n \in 0..(j - 1) :
                   /\ n % 2 = 1 /\ \A x \in (j - n)..(j - 1) : w[x] = 92
                   /\ (j - n = 1 \/ w[j - n - 1] # 92))}) % 2 = 0}
Deep(w, o, i) == Cardinality({j \in o : j < i /\ w[j] \in {91, 123}}) - Cardinality({j \in o : j < i /\ w[j] \in {93, 125}})
LaidOut(w) == LET o == Outside(w)
                  solid == {i \in o : w[i] \notin Blank}
                  Next(i) == IF \E j \in solid : j > i THEN CHOOSE j \in solid : j > i /\ \A x \in solid : x > i => j <= x ELSE 0
                  Prev(i) == IF \E j \in solid : j < i THEN CHOOSE j \in solid : j < i /\ \A x \in solid : x < i => j >= x ELSE 0
                  Own(i, lv) == LET p == Prev(i) IN SubSeq(w, p + 1, i - 1) = Line(lv) IN
    \A i \in o :
        /\ (w[i] = 44 => Own(Next(i), Deep(w, o, i)))
        /\ (w[i] \in {91, 123} => IF w[Next(i)] \in {93, 125} THEN Next(i) = i + 1 ELSE Own(Next(i), Deep(w, o, i) + 1))
        /\ (w[i] \in {93, 125} => \/ w[Prev(i)] \in {91, 123} \/ Own(i, Deep(w, o, i) - 1))
        /\ (w[i] = 10 => w[Prev(i)] \in {44, 91, 123} \/ w[Next(i)] \in {93, 125})
=============================================================================
