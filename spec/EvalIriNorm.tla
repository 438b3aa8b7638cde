---------------------------- MODULE EvalIriNorm ----------------------------
EXTENDS IriNorm, Eval
Answer(e) == [wf |-> WellFormed(e.w), norm |-> IF WellFormed(e.w) THEN Norm(e.w) ELSE <<>>, quote |-> Quote(e.w)]
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
=============================================================================
