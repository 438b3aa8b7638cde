---- MODULE EvalResourceKeys ----
(* For a content of one predicate: what every key denotes and what every     *)
(* assignment of the list Ops leaves.  Objects are numbered as in Ops.terms. *)
EXTENDS ResourceKeys, Eval
Ops == ndJsonDeserialize(IOEnv.OPS)[1]
U == Ops.terms
Ids(S) == { n \in 1..Len(U) : U[n] \in S }
Types0 == { <<Ops.types[n][1], "type", Ops.types[n][2]>> : n \in 1..Len(Ops.types) }
Answer(e) ==
    LET G == Types0 \cup { <<"s", "p", U[e.has[n]]>> : n \in 1..Len(e.has) }
        after(k, v) == IF ~Fit(G, v.its, v.coll, k, e.sc, e.own) THEN [ok |-> FALSE, has |-> {}]
                       ELSE LET O == Objs(Assigned(G, "s", v.its, v.coll, k, e.sc, e.own), "s", "p")
                            IN [ok |-> Cardinality(Ids(O)) = Cardinality(O), has |-> Ids(O)]
    IN [i \in 1..Len(Ops.keys) |-> LET k == Ops.keys[i] IN
          [den |-> Ids(Denotes(G, "s", k, e.sc, e.own)), one |-> Single(k, e.sc),
           left |-> Ids(Objs(Deleted(G, "s", k, e.sc, e.own), "s", "p")),
           set |-> [j \in 1..Len(Ops.vals) |-> after(k, Ops.vals[j])]]]
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
====
