----------------------------- MODULE TurtleLex -----------------------------
(* The terminals of Turtle over texts as sequences of code points: at every  *)
(* position the longest terminal is taken, and its value worked out.  Tokens *)
(* are those of Turtle.tla, with code points for text.  A literal and its    *)
(* language tag or datatype make one token.  amb: the text uses something    *)
(* whose reading is left open (glued keywords, surrogates, a comment inside  *)
(* the brackets of an anonymous node).                                       *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE SequencesExt

In(c, lo, hi) == lo <= c /\ c <= hi
Alpha(c) == In(c, 65, 90) \/ In(c, 97, 122)
Digit(c) == In(c, 48, 57)
Hex(c)   == Digit(c) \/ In(c, 65, 70) \/ In(c, 97, 102)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Ws(c)    == c \in {32, 9, 13, 10}
Eol(c)   == c = 10 \/ c = 13
PnBase(c) == \/ Alpha(c) \/ In(c, 192, 214) \/ In(c, 216, 246) \/ In(c, 248, 767)
             \/ In(c, 880, 893) \/ In(c, 895, 8191) \/ In(c, 8204, 8205)
             \/ In(c, 8304, 8591) \/ In(c, 11264, 12271) \/ In(c, 12289, 55295)
             \/ In(c, 63744, 64975) \/ In(c, 65008, 65533) \/ In(c, 65536, 983039)
PnU(c)   == PnBase(c) \/ c = 95
PnChar(c) == PnU(c) \/ c = 45 \/ Digit(c) \/ c = 183 \/ In(c, 768, 879) \/ In(c, 8255, 8256)
IriChar(c) == c > 32 /\ c \notin {60, 62, 34, 123, 125, 124, 94, 96, 92}
Surrogate(c) == In(c, 55296, 57343)
LocalEsc == {95, 126, 46, 45, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 47, 63, 35, 64, 37}

At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0 - 1
Cut(t, i, j) == SubSeq(t, i, j - 1)
Xsd(x) == <<"dt", <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 49,
                    47, 88, 77, 76, 83, 99, 104, 101, 109, 97, 35>> \o x>>
Integer == <<105, 110, 116, 101, 103, 101, 114>>
Decimal == <<100, 101, 99, 105, 109, 97, 108>>
Double  == <<100, 111, 117, 98, 108, 101>>
Boolean == <<98, 111, 111, 108, 101, 97, 110>>

Tok(k, v, w) == [k |-> k, v |-> v, w |-> w]
\* what a scan found: the token, where it ends, and whether that is left open
Got(tok, n) == [tok |-> tok, n |-> n, amb |-> FALSE]
Open(tok, n) == [tok |-> tok, n |-> n, amb |-> TRUE]
Junk(n) == Got(Tok("junk", <<>>, <<>>), n)

RECURSIVE Hexes(_, _, _, _)
\* n hex digits from i: their value, or -1 when there are not as many, or -2 beyond Unicode
Hexes(t, i, n, v) == IF n = 0 THEN (IF v > 1114111 THEN 0 - 2 ELSE v)
                     ELSE IF i > Len(t) \/ ~Hex(At(t, i)) THEN 0 - 1
                     ELSE Hexes(t, i + 1, n - 1, IF v > 1114111 THEN v ELSE v * 16 + HexVal(t[i]))
\* a numeric escape at i
UChar(t, i) == CASE At(t, i) # 92 -> [v |-> 0 - 1, n |-> i]
                 [] At(t, i + 1) = 117 -> [v |-> Hexes(t, i + 2, 4, 0), n |-> i + 6]
                 [] At(t, i + 1) = 85 -> [v |-> Hexes(t, i + 2, 8, 0), n |-> i + 10]
                 [] OTHER -> [v |-> 0 - 1, n |-> i]
EchVal(c) == CASE c = 116 -> 9 [] c = 98 -> 8 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 102 -> 12
               [] c \in {34, 39, 92} -> c [] OTHER -> 0 - 1

RECURSIVE IriScan(_, _, _, _)
IriScan(t, i, v, amb) ==
    CASE At(t, i) = 62 -> [ok |-> TRUE, n |-> i + 1, v |-> v, amb |-> amb]
      [] At(t, i) = 92 -> LET u == UChar(t, i) IN
            IF u.v < 0 THEN [ok |-> FALSE, n |-> i, v |-> v, amb |-> FALSE] ELSE IriScan(t, u.n, Append(v, u.v), amb \/ Surrogate(u.v))
      [] i <= Len(t) /\ IriChar(At(t, i)) -> IriScan(t, i + 1, Append(v, t[i]), amb)
      [] OTHER -> [ok |-> FALSE, n |-> i, v |-> v, amb |-> FALSE]
IriRef(t, i) ==
    LET s == IriScan(t, i + 1, <<>>, FALSE) IN
    IF ~s.ok THEN Junk(i + 1)
    ELSE IF \E k \in 1..Len(s.v) : ~IriChar(s.v[k]) THEN Got(Tok("badiri", <<>>, <<>>), s.n)
    ELSE [tok |-> Tok("rel", s.v, <<>>), n |-> s.n, amb |-> s.amb]

RECURSIVE StrScan(_, _, _, _, _, _)
\* q: the quote, long: three of them
StrScan(t, i, q, long, v, amb) ==
    LET c == At(t, i) bad == [ok |-> FALSE, n |-> i, v |-> v, amb |-> FALSE] IN
    CASE c = 0 - 1 -> bad
      [] c = q /\ ~long -> [ok |-> TRUE, n |-> i + 1, v |-> v, amb |-> amb]
      [] c = q /\ At(t, i + 1) = q /\ At(t, i + 2) = q -> [ok |-> TRUE, n |-> i + 3, v |-> v, amb |-> amb]
      [] c = 92 -> LET u == UChar(t, i) e == EchVal(At(t, i + 1)) IN
            IF u.v >= 0 THEN StrScan(t, u.n, q, long, Append(v, u.v), amb \/ Surrogate(u.v))
            ELSE IF e >= 0 THEN StrScan(t, i + 2, q, long, Append(v, e), amb) ELSE bad
      [] Eol(c) /\ ~long -> bad
      [] OTHER -> StrScan(t, i + 1, q, long, Append(v, c), amb)
Str(t, i) ==
    LET q == At(t, i)
        s == StrScan(t, i + 3, q, TRUE, <<>>, FALSE)
        z == StrScan(t, i + 1, q, FALSE, <<>>, FALSE)
        r == IF At(t, i + 1) = q /\ At(t, i + 2) = q /\ s.ok THEN s ELSE z
    IN IF r.ok THEN [tok |-> Tok("str", r.v, <<>>), n |-> r.n, amb |-> r.amb] ELSE Junk(i + 1)

Class(k, c) == CASE k = "digit" -> Digit(c) [] k = "alpha" -> Alpha(c) [] k = "alnum" -> Alpha(c) \/ Digit(c)
                 [] k = "pn" -> PnChar(c) [] k = "pn." -> PnChar(c) \/ c = 46 [] k = "line" -> ~Eol(c)
RECURSIVE While(_, _, _)
While(t, i, k) == IF i <= Len(t) /\ Class(k, t[i]) THEN While(t, i + 1, k) ELSE i
\* the end of the longest text of name characters and full stops that does not end in a full stop, from i, known good at g
RECURSIVE Dotted(_, _, _)
Dotted(t, i, g) == IF i > Len(t) THEN g ELSE IF PnChar(t[i]) THEN Dotted(t, i + 1, i + 1)
                   ELSE IF t[i] = 46 THEN Dotted(t, i + 1, g) ELSE g

RECURSIVE LocalScan(_, _, _, _, _)
\* v: value so far, g: where the longest legal local name ends and gv its value
LocalScan(t, i, v, g, gv) ==
    LET c == At(t, i) IN
    CASE c >= 0 /\ (PnChar(c) \/ c = 58) /\ (g # 0 \/ PnU(c) \/ Digit(c) \/ c = 58) ->
            LocalScan(t, i + 1, Append(v, c), i + 1, Append(v, c))
      [] c = 46 /\ g # 0 -> LocalScan(t, i + 1, Append(v, c), g, gv)
      [] c = 37 /\ Hex(At(t, i + 1)) /\ Hex(At(t, i + 2)) ->
            LET w == v \o Cut(t, i, i + 3) IN LocalScan(t, i + 3, w, i + 3, w)
      [] c = 92 /\ At(t, i + 1) \in LocalEsc -> LET w == Append(v, t[i + 1]) IN LocalScan(t, i + 2, w, i + 2, w)
      [] OTHER -> [g |-> g, v |-> gv]
PName(t, i, colon) ==
    LET p == Cut(t, i, colon) l == LocalScan(t, colon + 1, <<>>, 0, <<>>) IN
    IF l.g = 0 THEN Got(Tok("ns", p, <<>>), colon + 1) ELSE Got(Tok("pn", p, l.v), l.g)

Keywords == <<<<97>>, <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>,
              <<112, 114, 101, 102, 105, 120>>, <<98, 97, 115, 101>>>>
Starts(w, k) == Len(w) >= Len(k) /\ SubSeq(w, 1, Len(k)) = k
Lower(w) == [k \in 1..Len(w) |-> IF In(w[k], 65, 90) THEN w[k] + 32 ELSE w[k]]
Word(t, i) ==
    LET e == Dotted(t, i + 1, i + 1)
        all == While(t, i, "pn.")
        w == Cut(t, i, While(t, i, "pn"))
        n == i + Len(w)
    IN CASE At(t, e) = 58 /\ e = all -> PName(t, i, e)
         [] w = <<97>> -> Got(Tok("a", <<>>, <<>>), n)
         [] w = <<116, 114, 117, 101>> \/ w = <<102, 97, 108, 115, 101>> -> Got(Tok("lit", w, Xsd(Boolean)), n)
         [] Lower(w) = <<112, 114, 101, 102, 105, 120>> -> Got(Tok("PREFIX", <<>>, <<>>), n)
         [] Lower(w) = <<98, 97, 115, 101>> -> Got(Tok("BASE", <<>>, <<>>), n)
         \* the first three in just this case, the others in any
         [] \E k \in 1..Len(Keywords) : Starts(IF k <= 3 THEN w ELSE Lower(w), Keywords[k]) -> Open(Tok("junk", <<>>, <<>>), n)
         [] OTHER -> Junk(n)

\* an exponent at i ends at the result, or there is none (i)
Exponent(t, i) ==
    IF At(t, i) \notin {69, 101} THEN i
    ELSE LET s == IF At(t, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1 e == While(t, s, "digit")
         IN IF e > s THEN e ELSE i
Number(t, i) ==
    LET s == IF At(t, i) \in {43, 45} THEN i + 1 ELSE i
        d == While(t, s, "digit")
        f == IF At(t, d) = 46 THEN While(t, d + 1, "digit") ELSE d
        x1 == Exponent(t, d)
        x2 == IF At(t, d) = 46 THEN Exponent(t, f) ELSE f
        num(e, dt) == Got(Tok("lit", Cut(t, i, e), Xsd(dt)), e)
    IN CASE x2 > f /\ f > d /\ (d > s \/ f > d + 1) -> num(x2, Double)
         [] f > d + 1 -> num(f, Decimal)
         [] d > s /\ x1 > d -> num(x1, Double)
         [] d > s -> num(d, Integer)
         [] OTHER -> Junk(i + 1)

Bnode(t, i) ==
    IF At(t, i + 1) = 58 /\ At(t, i + 2) >= 0 /\ (PnU(At(t, i + 2)) \/ Digit(At(t, i + 2)))
    THEN LET e == Dotted(t, i + 3, i + 3) IN Got(Tok("bn", Cut(t, i + 2, e), <<>>), e)
    ELSE Junk(i + 1)

RECURSIVE Subtags(_, _)
Subtags(t, i) == IF At(t, i) = 45 /\ While(t, i + 1, "alnum") > i + 1
                 THEN Subtags(t, While(t, i + 1, "alnum")) ELSE i
Prefix_ == <<112, 114, 101, 102, 105, 120>>
Base_ == <<98, 97, 115, 101>>
\* str: the token before is a string, so that a tag is meant
AtSign(t, i, str) ==
    LET e == While(t, i + 1, "alpha") w == Cut(t, i + 1, e) n == Subtags(t, e) g == Cut(t, i + 1, n) IN
    CASE e = i + 1 -> Junk(e)
      [] str -> Got(Tok("lang", g, <<>>), n)
      [] g \in {Prefix_, Base_} -> [tok |-> Tok(IF g = Prefix_ THEN "@prefix" ELSE "@base", <<>>, <<>>), n |-> n,
                          \* a name glued to the directive
                          amb |-> At(t, n) >= 0 /\ ~Ws(At(t, n)) /\ At(t, n) \notin {35, 60}]
      [] Starts(g, Prefix_) \/ Starts(g, Base_) -> Open(Tok("junk", <<>>, <<>>), n)
      [] OTHER -> Junk(n)

Punct == {91, 93, 40, 41, 59, 44, 46}
PunctTok(c) == CASE c = 91 -> "[" [] c = 93 -> "]" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 59 -> ";" [] c = 44 -> "," [] OTHER -> "."
One(t, i, str) ==
    LET c == At(t, i) IN
    CASE c = 60 -> IriRef(t, i)
      [] c \in {34, 39} -> Str(t, i)
      [] c = 64 -> AtSign(t, i, str)
      [] c = 95 -> Bnode(t, i)
      [] c = 58 -> PName(t, i, i)
      [] c = 94 -> IF At(t, i + 1) = 94 THEN Got(Tok("^^", <<>>, <<>>), i + 2) ELSE Junk(i + 1)
      [] Digit(c) \/ c \in {43, 45} \/ (c = 46 /\ Digit(At(t, i + 1))) -> Number(t, i)
      [] c \in Punct -> Got(Tok(PunctTok(c), <<>>, <<>>), i + 1)
      [] PnBase(c) -> Word(t, i)
      [] OTHER -> Junk(i + 1)

\* white space and comments from i: where they end, and whether there was a comment
RECURSIVE Gap(_, _, _)
Gap(t, i, com) == IF i > Len(t) THEN [n |-> i, com |-> com]
                  ELSE IF Ws(t[i]) THEN Gap(t, i + 1, com)
                  ELSE IF t[i] = 35 THEN Gap(t, While(t, i, "line"), TRUE)
                  ELSE [n |-> i, com |-> com]

\* fold a language tag or a datatype into the literal before it
Put(toks, k) ==
    LET n == Len(toks)
        l == IF n = 0 THEN "" ELSE toks[n].k
    IN CASE l = "str" /\ k.k = "lang" -> [toks EXCEPT ![n] = Tok("lit", @.v, <<"lang", k.v>>)]
         [] l = "str" /\ k.k = "^^" -> [toks EXCEPT ![n].k = "str^^"]
         [] l = "str^^" -> [toks EXCEPT ![n] = IF k.k \in {"iri", "rel", "pn", "ns"} THEN Tok("dlit", @.v, k) ELSE Tok("junk", <<>>, <<>>)]
         [] k.k \in {"^^", "lang"} -> Append(toks, Tok("junk", <<>>, <<>>))
         [] l = "str" -> Append([toks EXCEPT ![n] = Tok("lit", @.v, <<"", <<>>>>)], k)
         [] OTHER -> Append(toks, k)

\* one token more, at position i of the text, unless it was passed already
LexAt(t, s, i) ==
    IF i < s.i \/ s.junk THEN s ELSE
    LET g == Gap(t, i, FALSE)
        last == IF s.toks = <<>> THEN "" ELSE s.toks[Len(s.toks)].k
        r == One(t, g.n, last = "str")
    IN IF g.n > Len(t) THEN [s EXCEPT !.i = g.n]
       ELSE IF r.tok.k = "junk" THEN [i |-> r.n, toks |-> Append(s.toks, r.tok), amb |-> s.amb \/ r.amb, junk |-> TRUE]
       ELSE [i |-> r.n, toks |-> Put(s.toks, r.tok), amb |-> s.amb \/ r.amb \/ (g.com /\ last = "[" /\ r.tok.k = "]"), junk |-> FALSE]
LexAll(t) == LET s == FoldLeft(LAMBDA s, i : LexAt(t, s, i), [i |-> 1, toks |-> <<>>, amb |-> FALSE, junk |-> FALSE], [k \in 1..Len(t) |-> k])
             IN [toks |-> IF s.junk THEN s.toks ELSE Put(s.toks, Tok("end", <<>>, <<>>)), amb |-> s.amb]
\* the tokens of a text, up to the first that is none
Lex(t) == LET r == LexAll(t) n == Len(r.toks) IN
          [toks |-> IF r.toks[n].k = "end" THEN SubSeq(r.toks, 1, n - 1) ELSE r.toks, amb |-> r.amb]
=============================================================================
