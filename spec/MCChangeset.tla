----------------------------- MODULE MCChangeset -----------------------------
(* Change sets of all pairs of graphs over a few statements, built a           *)
(* statement at a time; read back they say what was put in, and applying them   *)
(* gives the new graph.  Emits every pair with each set of excluded predicates. *)
EXTENDS Changeset, TLC, Json, IOUtils, CSV
CONSTANTS Universe, Preds
VARIABLES a, b, ex, todo, g, n
vars == <<a, b, ex, todo, g, n>>
Init == a \in SUBSET Universe /\ b \in SUBSET Universe /\ ex \in SUBSET Preds /\ todo = "start" /\ g = {} /\ n = 0
Start == /\ todo = "start"
         /\ g' = {<<"cs", "type", "ChangeSet">>, <<"cs", "createdDate", "now">>, <<"cs", "subjectOfChange", "g">>}
         /\ todo' = "reify" /\ UNCHANGED <<a, b, ex, n>>
Node(i) == "node" \o ToString(i)
Reify(t, how) == { <<Node(n), "type", "Statement">>, <<Node(n), "subject", t[1]>>, <<Node(n), "predicate", t[2]>>, <<Node(n), "object", t[3]>>, <<"cs", how, Node(n)>> }
Done(how) == UNION { Said(g, m) : m \in Objects(g, "cs", how) }
Left(how, S) == S \ Done(how)
Step == /\ todo = "reify"
        /\ \E how \in {"removal", "addition"} :
             LET S == Left(how, IF how = "removal" THEN Removed(a, b, ex) ELSE Added(a, b, ex)) IN
             S # {} /\ LET t == CHOOSE t \in S : TRUE IN g' = g \cup Reify(t, how)
        /\ n' = n + 1 /\ UNCHANGED <<a, b, ex, todo>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Finished == todo = "reify" /\ Left("removal", Removed(a, b, ex)) = {} /\ Left("addition", Added(a, b, ex)) = {}
Right(rem, add) == LET q == Clauses(g, "g", rem, add) IN \A k \in 1..Len(q) : q[k][2]
\* the finished graph says exactly this difference, and no unfinished one does
Reads == todo = "reify" => (Right(Removed(a, b, ex), Added(a, b, ex)) <=> Finished)
\* with nothing excluded, applying gives the new graph; what is excluded stays as it was
Applies == Finished =>
    /\ (ex = {} => Apply(a, Done("removal"), Done("addition")) = b)
    /\ { t \in Apply(a, Done("removal"), Done("addition")) : t[2] \notin ex } = { t \in b : t[2] \notin ex }
    /\ { t \in Apply(a, Done("removal"), Done("addition")) : t[2] \in ex } = { t \in a : t[2] \in ex }
Emit == IF todo = "start" THEN CSVWrite("%1$s", <<ToJson([a |-> a, b |-> b, ex |-> ex, rem |-> Removed(a, b, ex), add |-> Added(a, b, ex)])>>, IOEnv.OUT) ELSE TRUE
U5 == {<<"s1", "p1", "o1">>, <<"s1", "p1", "o2">>, <<"s1", "p2", "o1">>, <<"s2", "p1", "o1">>, <<"s2", "p2", "s1">>}
U4 == {<<"s1", "p1", "o1">>, <<"s1", "p1", "o2">>, <<"s1", "p2", "o1">>, <<"s2", "p2", "s1">>}
=============================================================================
