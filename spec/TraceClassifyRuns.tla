------------------------- MODULE TraceClassifyRuns -------------------------
(* The outcome of one classification (types and registrations alike) in      *)
(* several processes: it is a function of types and registrations, so there  *)
(* is just one.                                                              *)
EXTENDS Judge
VARIABLES tid, l
Clauses(e) == <<<<"one outcome", \A i, j \in 1..Len(e.runs) : e.runs[i] = e.runs[j]>>>>
Init == tid \in 1..Len(Log) /\ l = 1
Next == /\ l <= Len(Log[tid].ev) /\ Verdict(tid, l, Clauses(Log[tid].ev[l]))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
