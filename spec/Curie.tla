------------------------------- MODULE Curie -------------------------------
(* Resolving and shrinking by a prefix map.  Texts are sequences of          *)
(* characters; a map is a set of <<prefix, namespace>>, one per prefix.      *)
EXTENDS Naturals, Sequences, FiniteSets
CurieStartsWith(w, p) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
Colons(w) == { i \in 1..Len(w) : w[i] = ":" }
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Declared(map, p) == \E m \in map : m[1] = p
Namespace(map, p) == (CHOOSE m \in map : m[1] = p)[2]
Bracketed(w) == Len(w) >= 2 /\ w[1] = "[" /\ w[Len(w)] = "]"
Refused == <<"refused">>
Open == <<"open">>
\* the outcome of resolving: <<"iri", text>>, Refused (ValueError) or Open
Resolved(w, map, schemes) ==
    LET br == Bracketed(w)
        c == IF br THEN SubSeq(w, 2, Len(w) - 1) ELSE w
        cs == Colons(c)
        k == IF cs = {} THEN 0 ELSE Least(cs)
        p == SubSeq(c, 1, k - 1)
        r == SubSeq(c, k + 1, Len(c))
    IN IF w = <<>> THEN Open
       ELSE IF k = 0
       THEN IF Declared(map, <<>>) THEN <<"iri", Namespace(map, <<>>) \o c>>
            ELSE IF Declared(map, c) THEN Open
            ELSE Refused
       ELSE IF ~br /\ p \in schemes THEN <<"iri", c>>
       ELSE IF Declared(map, p) THEN <<"iri", Namespace(map, p) \o r>>
       ELSE Refused
\* the texts that shrinking may give
Shrunk(i, map) ==
    LET M == { m \in map : CurieStartsWith(i, m[2]) }
        longest == { m \in M : \A n \in M : Len(n[2]) <= Len(m[2]) }
    IN IF M = {} THEN {i} ELSE { m[1] \o <<":">> \o SubSeq(i, Len(m[2]) + 1, Len(i)) : m \in longest }
Abbreviated(i, map) == \E m \in map : CurieStartsWith(i, m[2])
Explicit(c) == <<"[">> \o c \o <<"]">>
=============================================================================
