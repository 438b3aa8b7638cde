------------------------------- MODULE MCJsonLd -------------------------------
(* All documents of up to Max tokens of a scenario.                            *)
EXTENDS JsonLd, Json, IOUtils, CSV
CONSTANTS Ids, Types, Vals, Others, Max
VARIABLES doc, m
L(v, g, d) == [k |-> "l", v |-> v, g |-> g, d |-> d]
B(v) == Term("b", v)
P == Iri("p")
Tokens == [t : {"node"}, x : Ids] \cup [t : {"type"}, x : Types] \cup [t : {"val"}, x : Vals] \cup [t : Others, x : {P}]
Init == doc = <<>> /\ m = Start
Room(t) == Len(m.stack) - 1 + (CASE t.t = "end" -> -1 [] t.t \in {"node", "prop", "rev", "list", "graph"} -> 1 [] OTHER -> 0) + Len(doc) + 1 <= Max
\* a node that is referred to only, a property or list that follows another in the same structure, are as good as any
Next == \E t \in Tokens : May(m, t) /\ Room(t) /\ m' = Step(m, t) /\ doc' = Append(doc, t)
Spec == Init /\ [][Next]_<<doc, m>>
\* quads are well formed; every graph is one that a node opened; blank nodes of lists are used once as a head or tail
WellFormed == \A q \in m.out : /\ q[1].k \in {"i", "b"} /\ q[2].k = "i" /\ q[3].k \in {"i", "b", "l"} /\ q[4].k \in {"i", "b", "d"}
                               /\ ~(q[3].g # "" /\ q[3].d # "")
Names == { doc[i].x : i \in { j \in 1..Len(doc) : doc[j].t = "node" } }
Graphs == \A q \in m.out : q[4].k = "d" \/ q[4] \in Names \/ \E i \in 0..(m.n - 1) : q[4] = Fresh(i)
Lists == Complete(m) =>
    \A c \in { q[1] : q \in { r \in m.out : r[2] = RdfRest } } :
        /\ Cardinality({ q \in m.out : q[1] = c /\ q[2] = RdfFirst }) = 1
        /\ Cardinality({ q \in m.out : q[1] = c /\ q[2] = RdfRest }) = 1
        /\ Cardinality({ q \in m.out : q[3] = c }) = 1
Emit == IF Complete(m) /\ doc # <<>> THEN CSVWrite("%1$s", <<ToJson([doc |-> doc, out |-> m.out])>>, IOEnv.OUT) ELSE TRUE
\* scenarios
GraphIds == {Anon, Iri("i1"), B("b1")}
GraphTypes == {B("b1")}
GraphVals == {B("b1"), Iri("i1")}
ListIds == {Anon, Iri("i1")}
ListVals == {L("x", "", ""), L("x", "en", ""), L("x", "", "dt"), B("b1")}
RevVals == {Iri("i1"), L("x", "", "")}
=============================================================================
