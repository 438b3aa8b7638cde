--------------------------- MODULE TraceChangeset ---------------------------
(* Verdicts over recorded differences and change set graphs.                  *)
EXTENDS Judge
C == INSTANCE Changeset
VARIABLES tid, l
T == Log[tid]
ClausesOf(e) ==
    LET a == Range(e.a)  b == Range(e.b)  ex == Range(e.ex) IN
    << <<"differences: removed", Exactly(e.rem, C!Removed(a, b, ex))>>, <<"differences: added", Exactly(e.add, C!Added(a, b, ex))>> >>
    \o (IF e.cs = <<>> THEN <<>> ELSE C!Clauses(Range(e.cs), e.name, C!Removed(a, b, {}), C!Added(a, b, {})))
Init == tid \in 1..Len(Log) /\ l = 1
Next == l <= Len(T.ev) /\ Verdict(tid, l, ClausesOf(T.ev[l])) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
