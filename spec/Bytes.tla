------------------------------- MODULE Bytes -------------------------------
(* Byte-level vocabulary shared by all specifications: UTF-8, hexadecimal   *)
(* digits, and arithmetic on decimal digit strings (TLC integers are 32     *)
(* bits wide, so anything wider is a sequence of digits or of bytes).       *)
EXTENDS Integers, Sequences

Digit(b)    == b \in 48..57
Digit19(b)  == b \in 49..57
HexVal(b)   == IF b \in 48..57 THEN b - 48
               ELSE IF b \in 65..70 THEN b - 55
               ELSE IF b \in 97..102 THEN b - 87 ELSE -1
JsonSpace(b) == b \in {32, 9, 10, 13}

(* UTF-8 encoding of a scalar value *)
Utf8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
    ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>

(* Unicode table 3-7: <<number of continuation bytes, least and greatest    *)
(* first continuation byte>>; zero when the byte cannot lead a sequence     *)
Utf8Lead(b) ==
    IF b \in 194..223 THEN <<1, 128, 191>>
    ELSE IF b = 224 THEN <<2, 160, 191>>
    ELSE IF b \in 225..236 THEN <<2, 128, 191>>
    ELSE IF b = 237 THEN <<2, 128, 159>>
    ELSE IF b \in 238..239 THEN <<2, 128, 191>>
    ELSE IF b = 240 THEN <<3, 144, 191>>
    ELSE IF b \in 241..243 THEN <<3, 128, 191>>
    ELSE IF b = 244 THEN <<3, 128, 143>>
    ELSE <<0, 0, 0>>

(* decimal digit strings without leading zeros (most significant first) *)
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) ==
    IF i > Len(a) THEN TRUE
    ELSE IF a[i] < b[i] THEN TRUE
    ELSE IF a[i] > b[i] THEN FALSE
    ELSE LexLeq(a, b, i + 1)
DecLeq(a, b) == IF Len(a) < Len(b) THEN TRUE ELSE IF Len(a) > Len(b) THEN FALSE ELSE LexLeq(a, b, 1)
RECURSIVE Strip0(_)
Strip0(a) == IF Len(a) > 1 /\ a[1] = 48 THEN Strip0(Tail(a)) ELSE a

U64Max == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>   \* 18446744073709551615
S64Min == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>      \* 9223372036854775808
=============================================================================
