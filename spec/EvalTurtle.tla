---- MODULE EvalTurtle ----
EXTENDS Turtle, Eval
Concat(b, r) == b \o r
Answer(e) == Meaning(Run(e.base, e.doc))
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
====
