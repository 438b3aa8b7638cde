------------------------------ MODULE Formats ------------------------------
(* The formats side by side: what a text means to each reader that can read   *)
(* its format, and what statements become when a format carries them.         *)
EXTENDS NTriples
TD == INSTANCE TurtleDoc
XsdString == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 49, 47, 88, 77, 76, 83, 99, 104, 101, 109, 97, 35,
               115, 116, 114, 105, 110, 103>>
RdfName(x) == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 49, 57, 57, 57, 47, 48, 50, 47, 50, 50, 45, 114, 100, 102,
                45, 115, 121, 110, 116, 97, 120, 45, 110, 115, 35>>
              \o CASE x = "type" -> <<116, 121, 112, 101>> [] x = "first" -> <<102, 105, 114, 115, 116>>
                   [] x = "rest" -> <<114, 101, 115, 116>> [] x = "nil" -> <<110, 105, 108>>
\* the terms of the Turtle machine as those of the line-based one
FromTurtle(x) == CASE x[1] = "i" -> Iri(x[2])
                   [] x[1] = "r" -> Iri(RdfName(x[2]))
                   [] x[1] = "b" -> Bn(x[2])
                   [] x[1] = "n" -> Bn(<<35, x[2]>>)
                   [] x[1] = "l" -> Lit(x[2], IF x[3][1] = "lang" THEN x[3][2] ELSE <<>>, IF x[3][1] = "dt" THEN x[3][2] ELSE <<>>)
Lower(g) == [i \in 1..Len(g) |-> IF In(g[i], 65, 90) THEN g[i] + 32 ELSE g[i]]
\* language tags have no case, and a plain literal is one of xsd:string
Plain(t) == IF t.k # "l" THEN t ELSE Lit(t.v, Lower(t.g), IF t.d = XsdString THEN <<>> ELSE t.d)
Terms(out) == [i \in 1..Len(out) |-> [j \in 1..Len(out[i]) |-> Plain(out[i][j])]]
Read(f, text) ==
    IF f = "ttl" THEN LET m == TD!Read(<<>>, text)
                      IN [ok |-> m.ok, amb |-> m.amb,
                          out |-> Terms([i \in 1..Len(m.out) |-> [j \in 1..3 |-> FromTurtle(m.out[i][j])]])]
    ELSE LET m == Parse(f = "nq", text) IN [m EXCEPT !.out = Terms(@)]
(* Labels with a colon are of the line-based formats alone.                   *)
ColonFree(out) == \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) :
                     out[i][j].k = "b" => \A n \in 1..Len(out[i][j].v) : out[i][j].v[n] # 58
Content(m) == { m.out[i] : i \in 1..Len(m.out) }
\* an N-Triples document is an N-Quads document, and nearly always a Turtle document, of the same meaning
Included(text) == LET m == Read("nt", text) IN
    (m.ok /\ ~m.amb) =>
        /\ LET q == Read("nq", text) IN q.ok /\ q.out = m.out
        /\ ColonFree(m.out) => LET t == Read("ttl", text) IN t.ok /\ t.out = m.out
(* What a format makes of the statements it carries: the line-based ones      *)
(* write IRIs with everything beyond ASCII encoded.                           *)
Carry(f, st) == LET p == [i \in 1..Len(st) |-> Plain(st[i])] IN IF f = "ttl" THEN p ELSE QuoteStatement(p)
=============================================================================
