------------------------------ MODULE Identity ------------------------------
(* What a resource of a graph is the same as, and how it shows itself.         *)
(* Things are [h, n, c]: h says what Python object it is ("res": a resource    *)
(* whose subject is the IRI n, "bres": one whose subject is the blank node n,  *)
(* "iri", "text", "lit": the IRI, character string, plain literal with text n, *)
(* "bn": the blank node n, "other": some other object); c is the class, graph or manner of making it,      *)
(* which has no influence.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets
Key(x) == CASE x.h \in {"res", "iri", "text"} -> <<"name", x.n>>
            [] x.h = "bres" -> <<"resource", x.n>>
            [] x.h = "bn" -> <<"node", x.n>>
            [] x.h = "lit" -> <<"literal", x.n>>
            [] x.h = "other" -> <<"other", x.n>>
Same(x, y) == Key(x) = Key(y)
(* A table from things to numbers: a set of <<key, number>>. *)
Without(t, x) == { e \in t : e[1] # Key(x) }
Put(t, x, v) == Without(t, x) \cup {<<Key(x), v>>}
Get(t, x) == { e[2] : e \in { f \in t : f[1] = Key(x) } }
Holds(t, x) == Get(t, x) # {}
(* What a resource shows: the literals its label denotes, else its subject.    *)
(* "open": several labels, or none in words.                                   *)
Shown(D, subject) == CASE Cardinality(D) > 1 -> <<"open">>
                       [] D = {} -> <<"text", subject>>
                       [] OTHER -> LET o == CHOOSE o \in D : TRUE IN
                                   IF o.k = "l" THEN <<"text", o.v>> ELSE <<"text", subject>>
=============================================================================
