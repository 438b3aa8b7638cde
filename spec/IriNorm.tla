------------------------------ MODULE IriNorm ------------------------------
(* Percent-encoding normalization of IRIs (RFC 3987, 5.3.2) and quoting into *)
(* URIs.  Texts are sequences of code points.                                *)
EXTENDS Naturals, Sequences, FiniteSets
Pct == 37
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
IsHex(c) == HexVal(c) # 99
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Enc(b) == <<Pct, HexUp(b \div 16), HexUp(b % 16)>>
\* an encoded byte at i
At(w, i) == i + 2 <= Len(w) /\ w[i] = Pct /\ IsHex(w[i + 1]) /\ IsHex(w[i + 2])
Byte(w, i) == (16 * HexVal(w[i + 1])) + HexVal(w[i + 2])
\* no percent sign outside an encoding
WellFormed(w) == \A i \in 1..Len(w) : w[i] = Pct => At(w, i)
Reserved == { 37, 58, 47, 63, 35, 91, 93, 64, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61 }
Unreserved == (48..57) \cup (65..90) \cup (97..122) \cup { 45, 46, 95, 126 }

Cont(w, i) == IF At(w, i) THEN Byte(w, i) \in 128..191 ELSE FALSE
ContIn(w, i, lo, hi) == IF At(w, i) THEN Byte(w, i) \in lo..hi ELSE FALSE
\* number of encoded bytes at i that are one character in UTF-8, or 0
Length(w, i) ==
    LET b == Byte(w, i) IN
    CASE b < 128 -> 1
      [] b \in 194..223 -> IF Cont(w, i + 3) THEN 2 ELSE 0
      [] b \in 224..239 -> IF ContIn(w, i + 3, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191) /\ Cont(w, i + 6) THEN 3 ELSE 0
      [] b \in 240..244 -> IF ContIn(w, i + 3, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191) /\ Cont(w, i + 6) /\ Cont(w, i + 9) THEN 4 ELSE 0
      [] OTHER -> 0
Char(w, i, n) ==
    LET b(k) == Byte(w, i + (3 * k)) % 64 IN
    CASE n = 1 -> Byte(w, i)
      [] n = 2 -> ((Byte(w, i) % 32) * 64) + b(1)
      [] n = 3 -> ((Byte(w, i) % 16) * 4096) + (b(1) * 64) + b(2)
      [] n = 4 -> ((Byte(w, i) % 8) * 262144) + (b(1) * 4096) + (b(2) * 64) + b(3)
\* stays encoded: controls, space, reserved
Stays(c) == c < 32 \/ c = 32 \/ c \in Reserved
RECURSIVE NormFrom(_, _)
NormFrom(w, i) ==
    IF i > Len(w) THEN <<>>
    ELSE IF ~At(w, i) THEN <<w[i]>> \o NormFrom(w, i + 1)
    ELSE LET n == Length(w, i) IN
         IF n = 0 \/ (n = 1 /\ Stays(Byte(w, i))) THEN Enc(Byte(w, i)) \o NormFrom(w, i + 3)
         ELSE <<Char(w, i, n)>> \o NormFrom(w, i + (3 * n))
Norm(w) == NormFrom(w, 1)

Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE EncAll(_)
EncAll(bs) == IF bs = <<>> THEN <<>> ELSE Enc(Head(bs)) \o EncAll(Tail(bs))
QuoteChar(c) == IF c \in Reserved \cup Unreserved THEN <<c>> ELSE EncAll(Utf8(c))
RECURSIVE Quote(_)
Quote(w) == IF w = <<>> THEN <<>> ELSE QuoteChar(Head(w)) \o Quote(Tail(w))
\* two URIs that differ only in the case of encodings and in encoded unreserved characters
RECURSIVE CanonFrom(_, _)
CanonFrom(u, i) ==
    IF i > Len(u) THEN <<>>
    ELSE IF ~At(u, i) THEN <<u[i]>> \o CanonFrom(u, i + 1)
    ELSE (IF Byte(u, i) \in Unreserved THEN <<Byte(u, i)>> ELSE Enc(Byte(u, i))) \o CanonFrom(u, i + 3)
Canon(u) == CanonFrom(u, 1)
LegalUri(u) == \A i \in 1..Len(u) : u[i] \in Reserved \cup Unreserved
=============================================================================
