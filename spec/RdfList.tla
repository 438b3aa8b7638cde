------------------------------ MODULE RdfList ------------------------------
(* RDF lists: cells 1..n, each with exactly one first and one rest; 0 is the *)
(* empty list rdf:nil.  Iterating from a cell is a walk along rest that      *)
(* gives the first of each cell it passes.                                   *)
EXTENDS Naturals, Sequences
\* no rest chain comes back
RECURSIVE Reaches(_, _, _)
Reaches(rest, i, fuel) == IF i = 0 THEN TRUE ELSE IF fuel = 0 THEN FALSE ELSE Reaches(rest, rest[i], fuel - 1)
WellFormed(rest) == \A i \in DOMAIN rest : Reaches(rest, i, Len(rest))
RECURSIVE Members(_, _, _)
Members(first, rest, i) == IF i = 0 THEN <<>> ELSE <<first[i]>> \o Members(first, rest, rest[i])
\* the walk, one member at a time
Done(cur) == cur = 0
Yield(first, cur) == first[cur]
Advance(rest, cur) == IF cur = 0 THEN 0 ELSE rest[cur]
=============================================================================
