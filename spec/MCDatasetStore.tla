---- MODULE MCDatasetStore ----
EXTENDS DatasetStore, Json, CSV, IOUtils
MCBatches == { {<<"s1","p1","o1","g1">>, <<"s1","p1","o1","none">>}, {<<"s2","p1","o1","g1">>, <<"s1","p1","o1","g2">>} }
MCGraphBatches == { {}, {<<"s1","p1","o1">>}, {<<"s1","p1","o1">>, <<"s2","p1","o1">>} }
View == graphs
Show(gs) == [q |-> AllQuads(gs), n |-> DOMAIN gs]
Emit == CSVWrite("%1$s", <<ToJson([k |-> "t", f |-> Show(graphs), a |-> last', t |-> Show(graphs')])>>, IOEnv.OUT)
Observation == [k |-> "o", s |-> Show(graphs),
                m |-> { [p |-> q, r |-> Matching(graphs, q)] : q \in Patterns },
                w |-> { t \in Triples : Occurs(graphs, t) }]
EmitObs == CSVWrite("%1$s", <<ToJson(Observation)>>, IOEnv.OUT)
====
