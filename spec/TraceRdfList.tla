--------------------------- MODULE TraceRdfList ---------------------------
(* Verdicts over recorded iterations of long lists, a member at a time.      *)
EXTENDS RdfList, Judge
VARIABLES tid, l, cur
T == Log[tid]
Clauses(e) ==
    CASE e.op = "yield" -> <<<<"past the end", ~Done(cur)>>, <<"member", IF Done(cur) THEN TRUE ELSE Yield(T.first, cur) = e.x>>>>
      [] e.op = "end" -> <<<<"ended early", Done(cur)>>>>
      [] OTHER -> <<<<"raised", FALSE>>>>
Init == tid \in 1..Len(Log) /\ l = 1 /\ cur = Log[tid].start
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, Clauses(T.ev[l]))
        /\ l' = l + 1 /\ cur' = Advance(T.rest, cur) /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, cur>>
=============================================================================
