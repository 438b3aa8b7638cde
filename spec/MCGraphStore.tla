---- MODULE MCGraphStore ----
(* Exhaustive exploration of GraphStore; writes every transition and every
   state's expected observations for replay into the real Graph. *)
EXTENDS GraphStore, Json, CSV, IOUtils

MCBatches == { {}, { <<"s1","p1","o1">>, <<"s2","p1","o2">> },
               { <<"s1","p2","o2">>, <<"s2","p2","o2">>, <<"s1","p1","o1">> } }
View == held

Emit == CSVWrite("%1$s", <<ToJson([k |-> "t", f |-> held, a |-> last', t |-> held'])>>, IOEnv.OUT)

Observation == [k |-> "o", s |-> held,
                m |-> { [p |-> q, r |-> Matching(held, q)] : q \in Patterns },
                subj |-> Subjects(held), pred |-> Predicates(held), obj |-> Objects(held)]
EmitObs == CSVWrite("%1$s", <<ToJson(Observation)>>, IOEnv.OUT)
====
