---------------------------- MODULE MCClassDefs ----------------------------
(* All histories of up to N class definitions; those without disagreeing     *)
(* bases are emitted for replay.                                             *)
EXTENDS ClassDefs, TLC, Json, IOUtils, CSV
CONSTANTS N, XS, YS
VARIABLES defs, clear
vars == <<defs, clear>>
P == {"x", "y"}
Root == [view |-> [p \in P |-> "none"], scalars |-> {}]
View(i) == IF i = 0 THEN Root.view ELSE defs[i].view
Sc(i) == IF i = 0 THEN Root.scalars ELSE defs[i].scalars
Init == defs = <<>> /\ clear = TRUE
BaseSets(n) == { {0} } \cup { {i} : i \in 1..n } \cup { {i, j} : i, j \in 1..n }
Define == /\ Len(defs) < N
          /\ \E bs \in BaseSets(Len(defs)) : \E a \in XS, b \in YS : \E names \in SUBSET { <<"x", "a">>, <<"y", "b">> } :
               LET own == [x |-> a, y |-> b]
                   views == { View(i) : i \in bs }
               IN \E view \in { v \in [P -> {"none"} \cup XS \cup YS] : \A p \in P : v[p] \in Allowed(own, views, p) } :
                    /\ Resolvable(names, view)
                    /\ defs' = Append(defs, [bases |-> bs, own |-> own, names |-> names, view |-> view,
                                             scalars |-> Scalars(UNION { Sc(i) : i \in bs }, names, view)])
                    /\ clear' = (clear /\ \A p \in P : Cardinality(Allowed(own, views, p)) = 1)
Next == Define
Spec == Init /\ [][Next]_vars
RECURSIVE Ancestors(_)
Ancestors(i) == IF i = 0 THEN {} ELSE {i} \cup UNION { Ancestors(j) : j \in defs[i].bases }
Downward ==
    \A i \in 1..Len(defs) : \A p \in P :
       /\ defs[i].own[p] # "none" => defs[i].view[p] = defs[i].own[p]
       /\ defs[i].view[p] = "none" <=> \A j \in Ancestors(i) : defs[j].own[p] = "none"
       /\ defs[i].view[p] # "none" => \E j \in Ancestors(i) : defs[j].own[p] = defs[i].view[p]
       /\ defs[i].scalars = UNION { { <<defs[j].view[n[1]], n[2]>> : n \in defs[j].names } : j \in Ancestors(i) }
Stable == [][\A i \in 1..Len(defs) : defs'[i] = defs[i]]_vars
Emit == IF Len(defs) = N /\ clear THEN CSVWrite("%1$s", <<ToJson(defs)>>, IOEnv.OUT) ELSE TRUE
=============================================================================
