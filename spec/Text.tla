-------------------------------- MODULE Text --------------------------------
(* Unicode text: decoding of UTF-8 byte strings (known to be well-formed)   *)
(* to code points and encoding of code points in UTF-16                     *)
EXTENDS Bytes

RECURSIVE CodesFrom(_, _, _)
CodesFrom(bs, i, acc) ==
    IF i > Len(bs) THEN acc
    ELSE LET b == bs[i] IN
         IF b < 128 THEN CodesFrom(bs, i + 1, Append(acc, b))
         ELSE IF b < 224 THEN CodesFrom(bs, i + 2, Append(acc, (b - 192) * 64 + (bs[i+1] - 128)))
         ELSE IF b < 240 THEN CodesFrom(bs, i + 3, Append(acc, (b - 224) * 4096 + (bs[i+1] - 128) * 64 + (bs[i+2] - 128)))
         ELSE CodesFrom(bs, i + 4, Append(acc, (b - 240) * 262144 + (bs[i+1] - 128) * 4096 + (bs[i+2] - 128) * 64 + (bs[i+3] - 128)))
Codes(bs) == CodesFrom(bs, 1, <<>>)

Utf16Of(c) == IF c < 65536 THEN <<c>> ELSE << 55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024) >>
RECURSIVE Flatten(_, _, _)
Flatten(ss, i, acc) == IF i > Len(ss) THEN acc ELSE Flatten(ss, i + 1, acc \o ss[i])
Utf16(cs) == Flatten([i \in 1..Len(cs) |-> Utf16Of(cs[i])], 1, <<>>)
Utf8Of(cs) == Flatten([i \in 1..Len(cs) |-> Utf8(cs[i])], 1, <<>>)

HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexDigitU(v) == IF v < 10 THEN 48 + v ELSE 55 + v
(* the \uXXXX escape of a UTF-16 code unit *)
Esc4(u, d(_)) == << 92, 117, d(u \div 4096), d((u \div 256) % 16), d((u \div 16) % 16), d(u % 16) >>
EscapeOf(c, d(_)) == LET us == Utf16Of(c) IN IF Len(us) = 1 THEN Esc4(us[1], d) ELSE Esc4(us[1], d) \o Esc4(us[2], d)
Surrogate(c) == c \in 55296..57343
=============================================================================
