------------------------------- MODULE Judge -------------------------------
(* Total verdicts over recorded behaviour of the implementation: every      *)
(* clause of every event is evaluated, and one that fails is printed as     *)
(* <<"MISMATCH", trace, event, clause>> without stopping the run, so that   *)
(* the harness sees all of them.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

Range(q) == { q[i] : i \in 1..Len(q) }
\* a sequence that lists exactly the elements of T, each once
Exactly(q, T) == Len(q) = Cardinality(T) /\ Range(q) = T

\* clauses: a sequence of <<name, BOOLEAN>>.  (IF, not \/: TLC would branch.)
Verdict(t, i, clauses) ==
    \A k \in 1..Len(clauses) :
        IF clauses[k][2] THEN TRUE ELSE PrintT(<<"MISMATCH", t, i, clauses[k][1]>>)
=============================================================================
