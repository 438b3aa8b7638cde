---- MODULE EvalFormats ----
(* What Formats says about given texts and carried statements. *)
EXTENDS Formats, Eval
Answer(e) == [reads |-> [i \in 1..Len(e.fs) |-> Read(e.fs[i], e.text)],
              want |-> [i \in 1..Len(e.graph) |-> Carry(e.fs[1], e.graph[i])]]
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
====
