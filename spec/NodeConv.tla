------------------------------ MODULE NodeConv ------------------------------
(* What a CBOR item is as a JSON text.  Both are given as bytes; each is    *)
(* read by the machine of its format and the two lists of events are walked *)
(* together:                                                                *)
(*   numbers, text, lists, maps   themselves (an infinity or a NaN is text) *)
(*   a tagged item                the item                                  *)
(*   a byte string                the list of its bytes                     *)
(*   a simple value               its number                                *)
(*   undefined                    null                                      *)
(*   a key                        itself where keys may be anything;        *)
(*                                otherwise text is itself and anything     *)
(*                                else is the text that denotes it          *)
(* Numbers are paired, not compared (they are compared outside).            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS JOpt          \* the dialect; any keys: JOpt.key = "b"
Corpus == ndJsonDeserialize("corpus.ndjson")        \* <<item, text>>
C == INSTANCE CborItem WITH Opt <- [dep |-> 0, lim |-> FALSE]
J == INSTANCE JsonText WITH Opt <- JOpt
K == INSTANCE JsonText WITH Opt <- [JOpt EXCEPT !.key = "b"]       \* inside a key

Bad == [i |-> 0, k |-> 0, ps |-> <<>>]
Bare(e) == IF e[1] = "kn" THEN Tail(e) ELSE IF e[1] = "k" THEN <<"s", e[2]>> ELSE e
Is(j, k, t) == k <= Len(j) /\ Bare(j[k])[1] = t
Words == [inf |-> <<105, 110, 102>>, ninf |-> <<45, 105, 110, 102>>, nan |-> <<110, 97, 110>>, nnan |-> <<45, 110, 97, 110>>,
          null |-> <<110, 117, 108, 108>>, true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>]
Odd(e) == e[1] = "f" /\ (LET b == e[2] IN
             CASE Len(b) = 2 -> (b[1] % 128) \div 4 = 31
               [] Len(b) = 4 -> b[1] % 128 = 127 /\ b[2] >= 128
               [] OTHER -> b[1] % 128 = 127 /\ b[2] >= 240)

(* past an item *)
RECURSIVE Past(_, _), PastAll(_, _)
Past(c, i) == CASE c[i][1] \in {"t", "*"} -> Past(c, i + 1)
                [] c[i][1] \in {"[", "{"} -> PastAll(c, i + 1)
                [] OTHER -> i + 1
PastAll(c, i) == IF c[i][1] \in {"]", "}"} THEN i + 1 ELSE PastAll(c, Past(c, i))
(* inside the item: text that a key spells with escapes, a number that has no number's spelling *)
Escapes(c, a, b) == \E i \in a..b : Odd(c[i]) \/ (c[i][1] = "s" /\ \E x \in 1..Len(c[i][2]) : c[i][2][x] \in {34, 92, 127} \cup 0..31)

Pair(i, k, p) == [i |-> i, k |-> k, ps |-> <<p>>]
None(i, k) == [i |-> i, k |-> k, ps |-> <<>>]
Plus(r, q) == IF q.i = 0 THEN Bad ELSE [q EXCEPT !.ps = r.ps \o @]

RECURSIVE Item(_, _, _, _, _), Items(_, _, _, _, _, _), Members(_, _, _, _, _, _, _), Key(_, _, _, _, _), Octets(_, _, _, _, _)
(* c[i..] is an item that j[k..] denotes: how far both reach, and the numbers paired; y: keys may be anything *)
Item(y, c, i, j, k) ==
    LET e == c[i] IN
    IF k > Len(j) THEN Bad ELSE LET v == Bare(j[k]) IN
    CASE e[1] \in {"t", "*"} -> Item(y, c, i + 1, j, k)
      [] e[1] = "[]" -> IF v[1] = "[" /\ Is(j, k + 1, "]") THEN None(i + 1, k + 2) ELSE Bad
      [] e[1] = "{}" -> IF v[1] = "{" /\ Is(j, k + 1, "}") THEN None(i + 1, k + 2) ELSE Bad
      [] e[1] = "[" -> IF v[1] = "[" THEN Items(y, c, i + 1, j, k + 1, None(i + 1, k + 1)) ELSE Bad
      [] e[1] = "{" -> IF v[1] = "{" THEN Members(y, c, i + 1, j, k + 1, None(i + 1, k + 1), FALSE) ELSE Bad
      [] e[1] = "b" -> IF v[1] = "[" THEN Octets(c, i, 1, j, k + 1) ELSE Bad
      [] e[1] = "s" -> IF v[1] = "s" /\ v[2] = e[2] THEN None(i + 1, k + 1) ELSE Bad
      [] e[1] = "undef" -> IF v[1] = "null" THEN None(i + 1, k + 1) ELSE Bad
      [] e[1] \in {"null", "true", "false"} -> IF v[1] = e[1] THEN None(i + 1, k + 1) ELSE Bad
      [] OTHER -> IF v[1] \in (IF Odd(e) THEN {"s", "r"} ELSE {"u", "i", "r"}) THEN Pair(i + 1, k + 1, <<e, v>>) ELSE Bad
Items(y, c, i, j, k, r) ==
    IF c[i][1] = "]" THEN (IF Is(j, k, "]") THEN [r EXCEPT !.i = i + 1, !.k = k + 1] ELSE Bad)
    ELSE LET q == Plus(r, Item(y, c, i, j, k)) IN IF q.i = 0 THEN Bad ELSE Items(y, c, q.i, j, q.k, q)
Members(y, c, i, j, k, r, val) ==
    IF ~val /\ c[i][1] = "}" THEN (IF Is(j, k, "}") THEN [r EXCEPT !.i = i + 1, !.k = k + 1] ELSE Bad)
    ELSE LET q == Plus(r, IF val THEN Item(y, c, i, j, k) ELSE Key(y, c, i, j, k)) IN IF q.i = 0 THEN Bad ELSE Members(y, c, q.i, j, q.k, q, ~val)
Octets(c, i, x, j, k) ==
    IF x > Len(c[i][2]) THEN (IF Is(j, k, "]") THEN None(i + 1, k + 1) ELSE Bad)
    ELSE IF ~Is(j, k, "u") THEN Bad
    ELSE Plus(Pair(i, k + 1, << <<"u", <<c[i][2][x]>>, 1>>, Bare(j[k]) >>), Octets(c, i, x + 1, j, k + 1))
(* a key that is not text is the text that denotes it *)
RECURSIVE Untag(_, _)
Untag(c, i) == IF c[i][1] \in {"t", "*"} THEN Untag(c, i + 1) ELSE i
Key(y, c, i0, j, k) ==
    LET i == Untag(c, i0)
        e == c[i] IN
    IF k > Len(j) THEN Bad
    ELSE IF y \/ e[1] = "s" THEN Item(y, c, i, j, k)
    ELSE IF j[k][1] # "k" THEN Bad
    ELSE IF Odd(e) /\ j[k][2] \in {Words.inf, Words.ninf, Words.nan, Words.nnan} THEN Pair(i + 1, k + 1, <<e, <<"s", j[k][2]>> >>)
    ELSE IF e[1] \in {"[", "{"} /\ Escapes(c, i, Past(c, i) - 1) THEN None(Past(c, i), k + 1)
    ELSE LET s == K!JRun(j[k][2])
             q == IF s.m = "done" /\ s.n = Len(j[k][2]) THEN Item(TRUE, c, i, s.ev, 1) ELSE Bad IN
         IF q.i = 0 \/ q.k # Len(s.ev) + 1 THEN Bad ELSE [q EXCEPT !.i = Past(c, i), !.k = k + 1]
VARIABLES d, done
vars == <<d, done>>
Init == d \in 1..Len(Corpus) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Verdict(row) ==
    LET c == C!CRun(row[1])
        j == J!JRun(row[2]) IN
    IF c.m # "done" \/ c.n # Len(row[1]) THEN <<"no item">>
    ELSE IF j.m # "done" \/ j.n # Len(row[2]) THEN <<"no text">>
    ELSE LET r == Item(JOpt.key = "b", c.ev, 1, j.ev, 1) IN
         IF r.i # Len(c.ev) + 1 \/ r.k # Len(j.ev) + 1 THEN <<"not the same value">>
         ELSE <<"ok", r.ps, C!Shortest(c.ev)>>
Out == done => PrintT(ToJson(<<"V", d, Verdict(Corpus[d])>>))
=============================================================================
