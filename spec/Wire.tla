-------------------------------- MODULE Wire --------------------------------
(* The concrete syntax of HTTP requests that matters here: percent-encoding, *)
(* form-urlencoded pairs, UTF-8, media types and lists of them.  Texts are   *)
(* sequences of code points, bytes sequences of 0..255.                      *)
EXTENDS Integers, Sequences, FiniteSets
\* the code points of a (lower case) name
LOCAL Chars == "abcdefghijklmnopqrstuvwxyz0123456789-+./*;=_ "
LOCAL CharCodes == [k \in 1..26 |-> 96 + k] \o [k \in 1..10 |-> 47 + k] \o <<45, 43, 46, 47, 42, 59, 61, 95, 32>>
RECURSIVE Codes(_)
Codes(s) == IF s = "" THEN <<>>
            ELSE <<CharCodes[CHOOSE k \in 1..Len(Chars) : SubSeq(Chars, k, k) = SubSeq(s, 1, 1)]>> \o Codes(SubSeq(s, 2, Len(s)))

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Find(w, c) == IF \E i \in 1..Len(w) : w[i] = c
              THEN CHOOSE i \in 1..Len(w) : w[i] = c /\ \A j \in 1..(i - 1) : w[j] # c
              ELSE 0
\* what comes before and after the first c; the whole and nothing if there is none
Before(w, c) == LET k == Find(w, c) IN IF k = 0 THEN w ELSE SubSeq(w, 1, k - 1)
After(w, c) == LET k == Find(w, c) IN IF k = 0 THEN <<>> ELSE SubSeq(w, k + 1, Len(w))
RECURSIVE Split(_, _)
Split(w, c) == IF Find(w, c) = 0 THEN <<w>> ELSE <<Before(w, c)>> \o Split(After(w, c), c)
Last(w, c) == IF \E i \in 1..Len(w) : w[i] = c
              THEN CHOOSE i \in 1..Len(w) : w[i] = c /\ \A j \in (i + 1)..Len(w) : w[j] # c
              ELSE 0
RECURSIVE Trim(_)
Trim(w) == IF w = <<>> THEN w
           ELSE IF w[1] \in {32, 9} THEN Trim(Tail(w))
           ELSE IF w[Len(w)] \in {32, 9} THEN Trim(SubSeq(w, 1, Len(w) - 1))
           ELSE w

\* media type without parameters, in lower case
RECURSIVE LowerAll(_)
LowerAll(w) == IF w = <<>> THEN <<>> ELSE <<Lower(w[1])>> \o LowerAll(Tail(w))
MediaType(w) == LowerAll(Trim(Before(w, 59)))
\* the media types of an Accept header
Accepted(w) == IF Trim(w) = <<>> THEN {} ELSE { MediaType(Split(w, 44)[i]) : i \in 1..Len(Split(w, 44)) }

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
LOCAL At(w, i) == i + 2 <= Len(w) /\ w[i] = 37 /\ HexVal(w[i + 1]) < 16 /\ HexVal(w[i + 2]) < 16
\* bytes of a percent-encoded text; a byte of 999 where it is not well formed
LOCAL At2(w, i) == IF i + 2 <= Len(w) THEN At(w, i) ELSE FALSE
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(w, i, plus) ==
    IF i > Len(w) THEN <<>>
    ELSE IF w[i] = 37 THEN (IF At2(w, i) THEN <<(16 * HexVal(w[i + 1])) + HexVal(w[i + 2])>> \o DecodeFrom(w, i + 3, plus)
                            ELSE <<999>>)
    ELSE IF w[i] > 127 THEN <<999>>
    ELSE <<IF plus /\ w[i] = 43 THEN 32 ELSE w[i]>> \o DecodeFrom(w, i + 1, plus)
Decode(w) == DecodeFrom(w, 1, FALSE)
\* the name/value pairs of a form-urlencoded text
Pairs(w) == IF w = <<>> THEN <<>>
            ELSE LET s == Split(w, 38) IN
                 [i \in 1..Len(s) |-> <<DecodeFrom(Before(s[i], 61), 1, TRUE), DecodeFrom(After(s[i], 61), 1, TRUE)>>]
\* the values given to a name, in order
Values(ps, n) == LET q == SelectSeq(ps, LAMBDA p : p[1] = n) IN [i \in 1..Len(q) |-> q[i][2]]
\* same values for every name
SameParams(p, q) ==
    /\ Len(p) = Len(q)
    /\ \A i \in 1..Len(q) : Values(p, q[i][1]) = Values(q, q[i][1])

Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Bytes(_)
Bytes(w) == IF w = <<>> THEN <<>> ELSE Utf8(Head(w)) \o Bytes(Tail(w))

\* writing, to check the reading against
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Plain == (48..57) \cup (65..90) \cup (97..122) \cup { 45, 46, 95, 126 }
EncByte(b) == IF b \in Plain THEN <<b>> ELSE <<37, HexUp(b \div 16), HexUp(b % 16)>>
RECURSIVE Encode(_)
Encode(bs) == IF bs = <<>> THEN <<>> ELSE EncByte(Head(bs)) \o Encode(Tail(bs))
RECURSIVE Form(_)
Form(ps) == IF ps = <<>> THEN <<>>
            ELSE Encode(ps[1][1]) \o <<61>> \o Encode(ps[1][2]) \o (IF Len(ps) = 1 THEN <<>> ELSE <<38>> \o Form(Tail(ps)))
=============================================================================
