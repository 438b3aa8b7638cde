---- MODULE EvalNTriples ----
(* What NTriples says about given documents and graphs. *)
EXTENDS NTriples, Eval
Answer(e) == CASE e.f = "parse" -> Parse(e.q, e.text)
               [] e.f = "doc" -> LET m == Parse(e.q, e.text) IN
                                 [ok |-> m.ok, amb |-> m.amb, out |-> m.out,
                                  want |-> [i \in 1..Len(e.graph) |-> QuoteStatement(e.graph[i])]]
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
====
