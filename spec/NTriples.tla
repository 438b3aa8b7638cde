------------------------------ MODULE NTriples ------------------------------
(* N-Triples and N-Quads documents, character by character.  A document is  *)
(* a sequence of code points; Step is the transition of a deterministic     *)
(* automaton (lexer and parser in one) whose state carries the statements   *)
(* read so far.  Written from the W3C grammars, not from the code.          *)
EXTENDS Naturals, Sequences, SequencesExt

In(c, lo, hi) == lo <= c /\ c <= hi
Alpha(c) == In(c, 65, 90) \/ In(c, 97, 122)
Digit(c) == In(c, 48, 57)
Hex(c)   == Digit(c) \/ In(c, 65, 70) \/ In(c, 97, 102)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Blank(c) == c = 32 \/ c = 9
Eol(c)   == c = 10 \/ c = 13
PnBase(c) == \/ Alpha(c) \/ In(c, 192, 214) \/ In(c, 216, 246) \/ In(c, 248, 767)
             \/ In(c, 880, 893) \/ In(c, 895, 8191) \/ In(c, 8204, 8205)
             \/ In(c, 8304, 8591) \/ In(c, 11264, 12271) \/ In(c, 12289, 55295)
             \/ In(c, 63744, 64975) \/ In(c, 65008, 65533) \/ In(c, 65536, 983039)
PnU(c)   == PnBase(c) \/ c = 95 \/ c = 58
PnChar(c) == PnU(c) \/ c = 45 \/ Digit(c) \/ c = 183 \/ In(c, 768, 879) \/ In(c, 8255, 8256)
IriChar(c) == c > 32 /\ c \notin {60, 62, 34, 123, 125, 124, 94, 96, 92}
Surrogate(c) == In(c, 55296, 57343)
SchemeChar(c) == Alpha(c) \/ Digit(c) \/ c \in {43, 45, 46}

\* does the text start with a scheme?
Absolute(v) == /\ Len(v) > 0 /\ Alpha(v[1])
               /\ \E i \in 2..Len(v) : v[i] = 58 /\ \A j \in 2..(i-1) : SchemeChar(v[j])

Iri(v)  == [k |-> "i", v |-> v, g |-> <<>>, d |-> <<>>]
Bn(v)   == [k |-> "b", v |-> v, g |-> <<>>, d |-> <<>>]
Lit(v, g, d) == [k |-> "l", v |-> v, g |-> g, d |-> d]

(* m: lexer mode; b: text of the token; h, n: numeric escape; r: mode to    *)
(* return to; pos: what the statement expects next; cur: its terms so far;  *)
(* out: complete statements; amb: uses something whose verdict the grammar  *)
(* leaves open (relative IRIs, escapes for characters an IRI cannot have).  *)
Start(q) == [q |-> q, m |-> "ws", b |-> <<>>, h |-> 0, n |-> 0, r |-> "", pos |-> "subject",
             cur |-> <<>>, out |-> <<>>, amb |-> FALSE]
Dead(s) == [s EXCEPT !.m = "dead"]
Mode(s, m) == [s EXCEPT !.m = m, !.b = <<>>]
Put(s, c) == [s EXCEPT !.b = Append(@, c)]

\* a complete term at the current position
Term(s0, t) ==
    LET s == [s0 EXCEPT !.m = "ws", !.b = <<>>,
                        !.amb = @ \/ (t.k = "i" /\ ~Absolute(t.v))]
        next(p) == [s EXCEPT !.pos = p, !.cur = Append(@, t)]
    IN  CASE s.pos = "subject" /\ t.k \in {"i", "b"} -> next("predicate")
          [] s.pos = "predicate" /\ t.k = "i" -> next("object")
          [] s.pos = "object" /\ t.k = "l" -> next("literal")
          [] s.pos = "object" /\ t.k # "l" -> next("end")
          [] s.pos = "datatype" /\ t.k = "i" -> [s EXCEPT !.pos = "end", !.cur[3].d = t.v]
          [] s.pos \in {"literal", "end"} /\ s.q /\ t.k \in {"i", "b"} -> next("stop")
          [] OTHER -> Dead(s)
Lang(s0, g) ==
    LET s == [s0 EXCEPT !.m = "ws", !.b = <<>>]
    IN  IF s.pos = "literal" THEN [s EXCEPT !.pos = "end", !.cur[3].g = g] ELSE Dead(s)
Dot(s) == IF s.pos \in {"literal", "end", "stop"}
          THEN [s EXCEPT !.pos = "eol", !.out = Append(@, s.cur), !.cur = <<>>] ELSE Dead(s)

\* between tokens
Between(s, c) ==
    CASE Blank(c) -> s
      [] Eol(c)  -> IF s.pos \in {"subject", "eol"} THEN [s EXCEPT !.pos = "subject"] ELSE Dead(s)
      [] c = 35 -> Mode(s, "comment")
      [] c = 60 -> Mode(s, "iri")
      [] c = 34 -> Mode(s, "str")
      [] c = 95 -> Mode(s, "bn_")
      [] c = 64 -> Mode(s, "lang@")
      [] c = 94 -> Mode(s, "^")
      [] c = 46 -> Dot(s)
      [] OTHER  -> Dead(s)
\* the token ended just before c
Next1(s, c) == IF s.m = "ws" THEN Between(s, c) ELSE s

RECURSIVE Dots(_)
Dots(n) == IF n = 0 THEN <<>> ELSE Append(Dots(n - 1), 46)

EchVal(c) == CASE c = 116 -> 9 [] c = 98 -> 8 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 102 -> 12
               [] OTHER -> c
Escaped(s) ==    \* the numeric escape is complete
    IF s.h > 1114111 THEN Dead(s)
    ELSE [s EXCEPT !.m = s.r, !.b = Append(@, s.h), !.h = 0, !.n = 0,
                   !.amb = @ \/ Surrogate(s.h) \/ (s.r = "iri" /\ ~IriChar(s.h))]

Step(s, c) ==
    CASE s.m = "dead" -> s
      [] s.m = "ws" -> Between(s, c)
      [] s.m = "comment" -> IF Eol(c) THEN Between(Mode(s, "ws"), c) ELSE s
      [] s.m = "iri" -> CASE c = 62 -> Term(s, Iri(s.b))
                          [] c = 92 -> [s EXCEPT !.m = "esc", !.r = "iri"]
                          [] IriChar(c) -> Put(s, c)
                          [] OTHER -> Dead(s)
      [] s.m = "str" -> CASE c = 34 -> Term(s, Lit(s.b, <<>>, <<>>))
                          [] c = 92 -> [s EXCEPT !.m = "esc", !.r = "str"]
                          [] Eol(c) -> Dead(s)
                          [] OTHER -> Put(s, c)
      [] s.m = "esc" -> CASE c = 117 -> [s EXCEPT !.m = "hex", !.n = 4, !.h = 0]
                          [] c = 85 -> [s EXCEPT !.m = "hex", !.n = 8, !.h = 0]
                          [] s.r = "str" /\ c \in {116, 98, 110, 114, 102, 34, 39, 92} ->
                                [s EXCEPT !.m = "str", !.b = Append(@, EchVal(c))]
                          [] OTHER -> Dead(s)
      [] s.m = "hex" -> IF ~Hex(c) THEN Dead(s)
                        ELSE LET t == [s EXCEPT !.h = IF @ > 1114111 THEN @ ELSE @ * 16 + HexVal(c), !.n = @ - 1]
                             IN IF t.n = 0 THEN Escaped(t) ELSE t
      [] s.m = "bn_" -> IF c = 58 THEN Mode(s, "bn:") ELSE Dead(s)
      [] s.m = "bn:" -> IF PnU(c) \/ Digit(c) THEN [Put(s, c) EXCEPT !.m = "bn", !.n = 0] ELSE Dead(s)
      [] s.m = "bn" ->      \* n: full stops that belong to the label only if more of it follows
            CASE PnChar(c) -> [s EXCEPT !.b = @ \o Dots(s.n) \o <<c>>, !.n = 0]
              [] c = 46 -> [s EXCEPT !.n = @ + 1]
              [] OTHER -> LET t == [Term(s, Bn(s.b)) EXCEPT !.n = 0]
                          IN  CASE t.m = "dead" -> t
                                [] s.n = 0 -> Between(t, c)
                                [] s.n = 1 -> Next1(Dot(t), c)
                                [] OTHER -> Dead(t)
      [] s.m = "lang@" -> IF Alpha(c) THEN [Put(s, c) EXCEPT !.m = "lang"] ELSE Dead(s)
      [] s.m \in {"lang", "lang-x"} ->
            CASE Alpha(c) \/ (s.m = "lang-x" /\ Digit(c)) -> Put(s, c)
              [] c = 45 -> [Put(s, c) EXCEPT !.m = "lang-"]
              [] OTHER -> Next1(Lang(s, s.b), c)
      [] s.m = "lang-" -> IF Alpha(c) \/ Digit(c) THEN [Put(s, c) EXCEPT !.m = "lang-x"] ELSE Dead(s)
      [] s.m = "^" -> IF c = 94 /\ s.pos = "literal" THEN [Mode(s, "ws") EXCEPT !.pos = "datatype"] ELSE Dead(s)

Run(q, text) == FoldLeft(Step, Start(q), text)
\* the end of the document ends a token or comment as the end of a line does
Accepts(s) == LET e == Step(s, 10) IN e.m = "ws" /\ e.pos = "subject"
Statements(s) == Step(s, 10).out
Meaning(s) == [ok |-> Accepts(s), amb |-> s.amb, out |-> IF Accepts(s) THEN Statements(s) ELSE <<>>]
Parse(q, text) == Meaning(Run(q, text))

(* Quoting: how the N-Triples forms of IRIs are made from IRIs.             *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Pct(b) == <<37, HexDigit(b \div 16), HexDigit(b % 16)>>
\* unreserved and reserved characters and the percent sign stay
UriChar(c) == Alpha(c) \/ Digit(c) \/ c \in {45, 46, 95, 126, 37, 58, 47, 63, 35, 91, 93, 64, 33, 36, 38, 39,
                                             40, 41, 42, 43, 44, 59, 61}
QuoteChar(c) == IF UriChar(c) THEN <<c>> ELSE FlattenSeq([i \in 1..Len(Utf8(c)) |-> Pct(Utf8(c)[i])])
Quote(v) == FlattenSeq([i \in 1..Len(v) |-> QuoteChar(v[i])])
QuoteTerm(t) == CASE t.k = "i" -> [t EXCEPT !.v = Quote(@)]
                  [] t.k = "l" /\ t.d # <<>> -> [t EXCEPT !.d = Quote(@)]
                  [] OTHER -> t
QuoteStatement(st) == [i \in 1..Len(st) |-> QuoteTerm(st[i])]
=============================================================================
