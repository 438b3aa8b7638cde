---------------------------- MODULE MCNTWrite ----------------------------
(* A writer for N-Triples in the specification itself, and the round trip:  *)
(* for every statement over the model's texts, reading what is written      *)
(* gives the statement with quoted IRIs.                                    *)
EXTENDS NTriples, TLC
CONSTANTS Chars, MaxLen
VARIABLES v, form
Hex4(c) == [i \in 1..4 |-> HexDigit((c \div (16 ^ (4 - i))) % 16)]
Hex8(c) == [i \in 1..8 |-> HexDigit((c \div (16 ^ (8 - i))) % 16)]
Esc(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
            [] In(c, 32, 126) -> <<c>>
            [] c < 65536 -> <<92, 117>> \o Hex4(c)
            [] OTHER -> <<92, 85>> \o Hex8(c)
EscAll(t) == FlattenSeq([i \in 1..Len(t) |-> Esc(t[i])])
WIri(t) == <<60>> \o Quote(t) \o <<62>>
S == <<97, 58, 115>>
Write(st) ==
    LET W(t) == CASE t.k = "i" -> WIri(t.v)
                  [] t.k = "b" -> <<95, 58>> \o t.v
                  [] OTHER -> <<34>> \o EscAll(t.v) \o <<34>> \o
                              (IF t.g # <<>> THEN <<64>> \o t.g ELSE IF t.d # <<>> THEN <<94, 94>> \o WIri(t.d) ELSE <<>>)
    IN FlattenSeq([i \in 1..Len(st) |-> W(st[i]) \o <<32>>]) \o <<46, 10>>
Statement == CASE form = "iri" -> <<Iri(S \o v), Iri(S), Iri(S \o v)>>
               [] form = "plain" -> <<Iri(S), Iri(S), Lit(v, <<>>, <<>>)>>
               [] form = "lang" -> <<Bn(<<98>>), Iri(S), Lit(v, <<101, 110>>, <<>>)>>
               [] form = "typed" -> <<Iri(S), Iri(S), Lit(v, <<>>, S \o v)>>
Init == v = <<>> /\ form \in {"iri", "plain", "lang", "typed"}
Next == Len(v) < MaxLen /\ \E c \in Chars : v' = Append(v, c) /\ UNCHANGED form
Spec == Init /\ [][Next]_<<v, form>>
RoundTrip == LET m == Parse(FALSE, Write(Statement)) IN
             m.ok /\ m.out = <<QuoteStatement(Statement)>>
\* quoting is a fixed point on what it yields
QuoteIdem == Quote(Quote(v)) = Quote(v) /\ \A i \in 1..Len(Quote(v)) : UriChar(Quote(v)[i])
=============================================================================
