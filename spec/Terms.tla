-------------------------------- MODULE Terms --------------------------------
(* Terms and statements as values, and what can be done with them.             *)
(* A term is [k |-> "i" | "l" | "b" | "-", v, g, d] (IRI, literal with language *)
(* and datatype, blank node, none); a value is a term or a statement:           *)
(* [k |-> "term" | "triple" | "quad", s, p, o, g].  Values are equal exactly    *)
(* when all components are, whatever was done to obtain them.                    *)
EXTENDS Integers, Sequences, FiniteSets
NoTerm == [k |-> "-", v |-> "-", g |-> "-", d |-> "-"]
Iri(v) == [k |-> "i", v |-> v, g |-> "-", d |-> "-"]
Lit(v, g, d) == [k |-> "l", v |-> v, g |-> g, d |-> d]
Blank(v) == [k |-> "b", v |-> v, g |-> "-", d |-> "-"]
OfTerm(t) == [k |-> "term", s |-> t, p |-> NoTerm, o |-> NoTerm, g |-> NoTerm]
Triple(s, p, o) == [k |-> "triple", s |-> s, p |-> p, o |-> o, g |-> NoTerm]
Quad(s, p, o, g) == [k |-> "quad", s |-> s, p |-> p, o |-> o, g |-> g]
Error == [k |-> "error", s |-> NoTerm, p |-> NoTerm, o |-> NoTerm, g |-> NoTerm]

Fields(x) == CASE x.k = "triple" -> {"subject", "predicate", "object"}
               [] x.k = "quad" -> {"subject", "predicate", "object", "graph"}
               [] x.k = "term" /\ x.s.k = "l" -> {"value", "language", "datatype"}
               [] OTHER -> {}
\* one field, given as a term (for literals: its v is the text)
With(x, f, t) == CASE f = "subject" -> [x EXCEPT !.s = t]
                   [] f = "predicate" -> [x EXCEPT !.p = t]
                   [] f = "object" -> [x EXCEPT !.o = t]
                   [] f = "graph" -> [x EXCEPT !.g = t]
                   [] f = "value" -> [x EXCEPT !.s.v = t.v]
                   [] f = "language" -> [x EXCEPT !.s.g = t.v]
                   [] f = "datatype" -> [x EXCEPT !.s.d = t.v]
\* fs: a sequence of <<field, term>>
RECURSIVE Replace(_, _)
Replace(x, fs) == IF fs = <<>> THEN x
                  ELSE IF fs[1][1] \notin Fields(x) THEN Error
                  ELSE Replace(With(x, fs[1][1], fs[1][2]), Tail(fs))
AsTriple(q) == Triple(q.s, q.p, q.o)
AsQuad(g, t) == Quad(t.s, t.p, t.o, g)
Parts(x) == <<x.s, x.p, x.o, x.g>>
\* the same but for the identity of blank nodes, which stay as many as they were
SameButBlanks(x, y) ==
    /\ x.k = y.k
    /\ \A i \in 1..4 : Parts(x)[i].k = Parts(y)[i].k /\ (Parts(x)[i].k = "b" \/ Parts(x)[i] = Parts(y)[i])
    /\ \A i, j \in 1..4 : Parts(x)[i].k = "b" /\ Parts(x)[j].k = "b" => ((Parts(x)[i] = Parts(x)[j]) <=> (Parts(y)[i] = Parts(y)[j]))
HasBlanks(x) == \E i \in 1..4 : Parts(x)[i].k = "b"
=============================================================================
