---- MODULE EvalJsonLd ----
(* The quads of given documents. *)
EXTENDS JsonLd, Eval
Answer(e) == LET r == RunSafe(Start, e.doc) IN [ok |-> r.ok, out |-> r.m.out]
Spec == EvalInit /\ [][EvalNext(Answer)]_tid
====
