---------------------------- MODULE DatasetStore ----------------------------
(***************************************************************************)
(* pymantic.primitives.Dataset (property C03): a set of quads kept apart    *)
(* per graph name.  State: the graphs held, as a function from their names  *)
(* to sets of triples (a name may be held with no triples).  The default    *)
(* graph has the name Default; it cannot be bound in a pattern, where no     *)
(* graph means every graph.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS S, P, O, G, Default, Free, Batches, GraphBatches

VARIABLES graphs, last
vars == <<graphs, last>>

Names    == G \cup {Default}
Triples  == S \X P \X O
Quads    == S \X P \X O \X Names
Patterns == (S \cup {Free}) \X (P \cup {Free}) \X (O \cup {Free}) \X (G \cup {Free})

Held(gs)  == DOMAIN gs
In(gs, n) == IF n \in DOMAIN gs THEN gs[n] ELSE {}
Quad(t, n) == <<t[1], t[2], t[3], n>>
Triple(q) == <<q[1], q[2], q[3]>>
AllQuads(gs) == UNION { { Quad(t, n) : t \in gs[n] } : n \in DOMAIN gs }

Fits(q, pat) == \A i \in 1..4 : pat[i] = Free \/ pat[i] = q[i]
Matching(gs, pat) == { q \in AllQuads(gs) : Fits(q, pat) }
Occurs(gs, t) == \E n \in DOMAIN gs : t \in gs[n]

RECURSIVE AddEach(_, _), DelEach(_, _)
AddEach(gs, Q) == IF Q = {} THEN gs ELSE
    LET q == CHOOSE x \in Q : TRUE IN
    AddEach((q[4] :> (In(gs, q[4]) \cup {Triple(q)})) @@ gs, Q \ {q})
DelEach(gs, Q) == IF Q = {} THEN gs ELSE
    LET q == CHOOSE x \in Q : TRUE IN
    DelEach([gs EXCEPT ![q[4]] = @ \ {Triple(q)}], Q \ {q})

Did(op, arg, name, res) == last' = [op |-> op, arg |-> arg, name |-> name, res |-> res]

Init == graphs = [n \in {} |-> {}] /\ last = [op |-> "init", arg |-> {}, name |-> Default, res |-> "ok"]

Add(q) == graphs' = AddEach(graphs, {q}) /\ Did("add", {q}, Default, "ok")
AddAll(Q) == graphs' = AddEach(graphs, Q) /\ Did("addAll", Q, Default, "ok")
Remove(q) == /\ q \in AllQuads(graphs)
             /\ graphs' = DelEach(graphs, {q}) /\ Did("remove", {q}, Default, "ok")
RemoveAbsent(q) == /\ q \notin AllQuads(graphs)
                   /\ UNCHANGED graphs /\ Did("remove", {q}, Default, "KeyError")
RemoveMatches(pat) == /\ graphs' = DelEach(graphs, Matching(graphs, pat))
                      /\ Did("removeMatches", {pat}, Default, "ok")
\* a whole graph takes the place of what was held under its name
AddGraph(n, T) == /\ n \in G
                  /\ graphs' = (n :> T) @@ graphs
                  /\ Did("addGraph", T, n, "ok")
AddUnnamed(T) == UNCHANGED graphs /\ Did("addUnnamed", T, Default, "ValueError")
RemoveGraph(n) == /\ n \in DOMAIN graphs \cap G
                  /\ graphs' = [m \in DOMAIN graphs \ {n} |-> graphs[m]]
                  /\ Did("removeGraph", {}, n, "ok")

Next == \/ \E q \in Quads : Add(q) \/ Remove(q) \/ RemoveAbsent(q)
        \/ \E Q \in Batches : AddAll(Q)
        \/ \E pat \in Patterns : RemoveMatches(pat)
        \/ \E T \in GraphBatches : AddUnnamed(T) \/ \E n \in G : AddGraph(n, T)
        \/ \E n \in G : RemoveGraph(n)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
TypeOK == DOMAIN graphs \subseteq Names
\* adding and removing act on quads as on a set; graphs are kept apart
Effect == [][ LET a == last' IN
    CASE a.op \in {"add", "addAll"} -> AllQuads(graphs') = AllQuads(graphs) \cup a.arg
      [] a.op = "remove" /\ a.res = "ok" -> AllQuads(graphs') = AllQuads(graphs) \ a.arg
      [] a.op = "removeMatches" -> AllQuads(graphs') = { q \in AllQuads(graphs) : \A p \in a.arg : ~Fits(q, p) }
      [] a.op = "addGraph" -> { q \in AllQuads(graphs') : q[4] # a.name } = { q \in AllQuads(graphs) : q[4] # a.name }
      [] a.op = "removeGraph" -> AllQuads(graphs') = { q \in AllQuads(graphs) : q[4] # a.name }
      [] OTHER -> graphs' = graphs ]_vars
\* a failure changes nothing
Failure == [][ last'.res # "ok" => graphs' = graphs ]_vars
=============================================================================
