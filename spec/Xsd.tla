--------------------------------- MODULE Xsd ---------------------------------
(* Lexical forms of xsd:integer and xsd:dateTime.  Texts are code points.      *)
EXTENDS Integers, Sequences
Digit(c) == c \in 48..57
AllDigits(w) == \A i \in 1..Len(w) : Digit(w[i])
\* the canonical form of the integer with the given sign and decimal digits
IntegerForm(neg, ds) == (IF neg THEN <<45>> ELSE <<>>) \o [i \in 1..Len(ds) |-> 48 + ds[i]]
RECURSIVE Num(_)
Num(w) == IF w = <<>> THEN 0 ELSE 10 * Num(SubSeq(w, 1, Len(w) - 1)) + (w[Len(w)] - 48)
Bad == [ok |-> FALSE, y |-> 0, mo |-> 0, d |-> 0, h |-> 0, mi |-> 0, s |-> 0, us |-> 0, tz |-> "none", off |-> 0]
\* microseconds of a fraction (without the point)
RECURSIVE Pad(_)
Pad(w) == IF Len(w) >= 6 THEN SubSeq(w, 1, 6) ELSE Pad(Append(w, 48))
Fraction(w) == Num(Pad(w))
\* the end of the digits that start at i
RECURSIVE Skip(_, _)
Skip(w, i) == IF i <= Len(w) THEN (IF Digit(w[i]) THEN Skip(w, i + 1) ELSE i) ELSE i
\* yyyy-mm-ddThh:mm:ss(.f+)?(Z|(+|-)hh:mm)?   for years of four digits
ReadDateTime(w) ==
    IF Len(w) < 19 THEN Bad
    ELSE IF ~(AllDigits(SubSeq(w, 1, 4)) /\ w[5] = 45 /\ AllDigits(SubSeq(w, 6, 7)) /\ w[8] = 45 /\ AllDigits(SubSeq(w, 9, 10)) /\ w[11] = 84
              /\ AllDigits(SubSeq(w, 12, 13)) /\ w[14] = 58 /\ AllDigits(SubSeq(w, 15, 16)) /\ w[17] = 58 /\ AllDigits(SubSeq(w, 18, 19)))
    THEN Bad
    ELSE LET dot == IF Len(w) > 19 THEN w[20] = 46 ELSE FALSE
             e == IF dot THEN Skip(w, 21) ELSE 20
             z == SubSeq(w, e, Len(w))
             base == [ok |-> TRUE, y |-> Num(SubSeq(w, 1, 4)), mo |-> Num(SubSeq(w, 6, 7)), d |-> Num(SubSeq(w, 9, 10)),
                      h |-> Num(SubSeq(w, 12, 13)), mi |-> Num(SubSeq(w, 15, 16)), s |-> Num(SubSeq(w, 18, 19)),
                      us |-> IF dot THEN Fraction(SubSeq(w, 21, e - 1)) ELSE 0, tz |-> "none", off |-> 0] IN
         IF dot /\ e = 21 THEN Bad
         ELSE IF z = <<>> THEN base
         ELSE IF z = <<90>> THEN [base EXCEPT !.tz = "some"]
         ELSE IF Len(z) # 6 THEN Bad
         ELSE IF ~(z[1] \in {43, 45} /\ AllDigits(SubSeq(z, 2, 3)) /\ z[4] = 58 /\ AllDigits(SubSeq(z, 5, 6))) THEN Bad
         ELSE [base EXCEPT !.tz = "some", !.off = (IF z[1] = 45 THEN -1 ELSE 1) * ((60 * Num(SubSeq(z, 2, 3))) + Num(SubSeq(z, 5, 6)))]
=============================================================================
