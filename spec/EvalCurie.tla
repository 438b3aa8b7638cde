----------------------------- MODULE EvalCurie -----------------------------
(* Answers for a map and lists of texts to resolve and IRIs to shrink.       *)
EXTENDS Curie, Eval
Pairs(q) == { <<q[i][1], q[i][2]>> : i \in 1..Len(q) }
Scheme(e) == { e.schemes[i] : i \in 1..Len(e.schemes) }
Answer(e) == LET m == Pairs(e.map) s == Scheme(e) IN
    [res |-> [i \in 1..Len(e.texts) |-> Resolved(e.texts[i], m, s)],
     shr |-> [i \in 1..Len(e.iris) |-> Shrunk(e.iris[i], m)]]
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
=============================================================================
