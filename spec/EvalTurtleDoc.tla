---- MODULE EvalTurtleDoc ----
EXTENDS TurtleDoc, Eval
Answer(e) == Read(e.base, e.text)
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
====
