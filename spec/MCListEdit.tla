---------------------------- MODULE MCListEdit ----------------------------
(* All edits of the lists of a small graph, every transition emitted, with   *)
(* the members seen from every cell after it.                                *)
EXTENDS ListEdit, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS N, X
VARIABLES g, last
vars == <<g, last>>
Init == g = Blank(N) /\ last = <<"none">>
Do(h, a) == g' = h /\ last' = a
Next == \E i \in 1..N :
          \/ \E x \in 1..X, j \in 0..N : CanAttach(g, i, j) /\ Do(Attach(g, i, x, j), <<"attach", i, x, j>>)
          \/ \E x \in 1..X : Live(g, i) /\ g.first[i] # x /\ Do(SetFirst(g, i, x), <<"first", i, x>>)
          \/ \E j \in 0..N : IF CanSetRest(g, i, j) THEN g.rest[i] # j /\ Do(SetRest(g, i, j), <<"rest", i, j>>) ELSE FALSE
          \/ CanDetach(g, i) /\ Do(Detach(g, i), <<"detach", i>>)
Spec == Init /\ [][Next]_vars
View == g
\* every list ends, and no cell is dangling
Ends == \A i \in Cells(g) : Reaches(g.rest, i, N) /\ Target(g, g.rest[i])
\* an edit shows in the lists that pass the cell and in no others
Local == [][\A i \in Cells(g) : Live([rest |-> g'.rest], i) /\ last'[1] # "none" =>
               (~Leads(g, i, last'[2]) => MembersOf(g', i) = MembersOf(g, i))]_vars
Emit == CSVWrite("%1$s", <<ToJson([f |-> g, a |-> last', t |-> g'])>>, IOEnv.OUT)
Seen == [i \in 1..N |-> IF Live(g, i) THEN MembersOf(g, i) ELSE <<>>]
EmitObs == CSVWrite("%1$s", <<ToJson([s |-> g, m |-> Seen])>>, IOEnv.OUT)
=============================================================================
