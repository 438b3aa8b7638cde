---------------------------- MODULE TraceSparql ----------------------------
(* Verdicts over recorded calls: the requests each of them sent, and how it   *)
(* ended.                                                                     *)
EXTENDS SparqlClient, Judge
VARIABLES tid, l
T == Log[tid]
Clauses(e) ==
    (IF Len(e.reqs) # 1 THEN <<<<"one request", FALSE>>>> ELSE RequestClauses(T.cfg, e.call, e.reqs[1]))
    \o <<<<"outcome", OutcomeRight(e.call, e.ans, e.out)>>>>
Init == tid \in 1..Len(Log) /\ l = 1
Next == l <= Len(T.ev) /\ Verdict(tid, l, Clauses(T.ev[l])) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
