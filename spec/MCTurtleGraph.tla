--------------------------- MODULE MCTurtleGraph ---------------------------
(* All graphs of up to N triples over a few nodes and the list vocabulary:   *)
(* whole, shared, cyclic, broken and nested lists of every small form.       *)
(* A graph is a strictly increasing sequence of triple numbers.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANT N
Subj == <<"b1", "b2", "b3", "x">>
Pred == <<"first", "rest", "p">>
Obj == <<"b1", "b2", "b3", "x", "nil", "l">>
All == [i \in 0..71 |-> <<Subj[(i % 4) + 1], Pred[((i \div 4) % 3) + 1], Obj[(i \div 12) + 1]>>]
VARIABLE g
Init == g = <<>>
Next == Len(g) < N /\ \E i \in 0..71 : (IF g = <<>> THEN TRUE ELSE g[Len(g)] < i) /\ g' = Append(g, i)
Spec == Init /\ [][Next]_g
Graph == [k \in 1..Len(g) |-> All[g[k]]]
Nodes == { Graph[k][1] : k \in 1..Len(g) } \cup { Graph[k][3] : k \in 1..Len(g) }
\* blank nodes are used in their order: one graph for each renaming of them
First(b) == CHOOSE k \in 1..(2 * Len(g)) : (IF k % 2 = 1 THEN Graph[(k + 1) \div 2][1] ELSE Graph[k \div 2][3]) = b
              /\ \A j \in 1..(k - 1) : (IF j % 2 = 1 THEN Graph[(j + 1) \div 2][1] ELSE Graph[j \div 2][3]) # b
Canonical == /\ "b2" \in Nodes => "b1" \in Nodes /\ First("b1") < First("b2")
             /\ "b3" \in Nodes => "b2" \in Nodes /\ First("b2") < First("b3")
\* interesting: at least one list triple
Emit == IF Canonical THEN CSVWrite("%1$s", <<ToJson([g |-> Graph])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
