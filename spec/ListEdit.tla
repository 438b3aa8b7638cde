------------------------------ MODULE ListEdit ------------------------------
(* Lists that are edited: cells 1..n of a graph, each absent (its rest is    *)
(* None), or with one first and one rest.  Every iteration gives the members *)
(* that the graph holds when it is made, whatever the lists were before.     *)
EXTENDS RdfList, Integers
None == -1
\* [first: cell -> member, rest: cell -> cell, 0 (nil) or None]
Blank(n) == [first |-> [i \in 1..n |-> 0], rest |-> [i \in 1..n |-> None]]
Live(g, i) == g.rest[i] # None
Cells(g) == { i \in DOMAIN g.rest : Live(g, i) }
Target(g, j) == IF j = 0 THEN TRUE ELSE Live(g, j)
RECURSIVE Leads(_, _, _)
Leads(g, i, j) == IF i = j THEN TRUE ELSE IF i = 0 THEN FALSE ELSE Leads(g, g.rest[i], j)
\* what may be done, and the graph after it
CanAttach(g, i, j) == ~Live(g, i) /\ Target(g, j)
Attach(g, i, x, j) == [first |-> [g.first EXCEPT ![i] = x], rest |-> [g.rest EXCEPT ![i] = j]]
SetFirst(g, i, x) == [g EXCEPT !.first[i] = x]
CanSetRest(g, i, j) == /\ Live(g, i) /\ i # j /\ Target(g, j)
                       /\ IF Target(g, j) THEN ~Leads(g, j, i) ELSE FALSE
SetRest(g, i, j) == [g EXCEPT !.rest[i] = j]
CanDetach(g, i) == Live(g, i) /\ \A k \in Cells(g) : g.rest[k] # i
Detach(g, i) == [first |-> [g.first EXCEPT ![i] = 0], rest |-> [g.rest EXCEPT ![i] = None]]
MembersOf(g, i) == Members(g.first, g.rest, i)
=============================================================================
