--------------------------- MODULE TraceClassify ---------------------------
(* Verdicts over recorded classifications: registrations and types at the    *)
(* moment, and the registered classes the result was an instance of, in the  *)
(* order in which they come first (order), and whether a result made of      *)
(* several has all the types it stands for.                                  *)
EXTENDS Judge
VARIABLES tid, l
T == Log[tid]
AboveOf(c) == Range(T.above[c])
C == INSTANCE Classify WITH Above <- AboveOf
\* registrations: a sequence of <<type, class>>, later ones replacing earlier ones
Current(q) == LET ts == { q[i][1] : i \in 1..Len(q) }
              IN [t \in ts |-> LET i == CHOOSE i \in 1..Len(q) : q[i][1] = t /\ \A j \in 1..Len(q) : q[j][1] = t => j <= i IN q[i][2]]
Same(d, e) == Range(d.has) = Range(e.has) /\ (d.n = e.n \/ Current(SubSeq(T.regs, 1, d.n)) = Current(SubSeq(T.regs, 1, e.n)))
Clauses(k) ==
    LET e == T.ev[k] reg == Current(SubSeq(T.regs, 1, e.n)) want == C!InstanceOf(reg, Range(e.has)) IN
    <<<<"classes", Range(e.i) = want>>, <<"plain", e.plain = (want = {})>>, <<"node", e.same>>, <<"graph", e.kept>>, <<"types", e.isa>>,
      <<"order", \A j \in 1..k - 1 : Same(T.ev[j], e) => T.ev[j].order = e.order>>>>
Init == tid \in 1..Len(Log) /\ l = 1
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, Clauses(l))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
