------------------------------ MODULE MCTurtle ------------------------------
(* All token sequences of given scenarios, with their meaning, for replay.   *)
EXTENDS Turtle, TLC, Json, IOUtils, CSV
Concat(b, r) == b \o r
VARIABLES sc, doc, s
vars == <<sc, doc, s>>
Sc == ndJsonDeserialize(IOEnv.TRACE)
X == Sc[sc]
Init == sc \in 1..Len(Sc) /\ doc = X.pre /\ s = Run(X.base, X.pre)
Next == /\ s.ok /\ Len(doc) < Len(X.pre) + X.n
        /\ \E i \in 1..Len(X.alpha) : doc' = Append(doc, X.alpha[i]) /\ s' = Step(s, X.alpha[i])
        /\ Len(s'.stk) <= X.depth
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
View == <<sc, doc>>
Inv == WellFormed(s) /\ Cells(s) /\ Complete(s) /\ Nested(s)
Monotone == [][s'.ok => SubSeq(s'.out, 1, Len(s.out)) = s.out]_vars
\* the tokens of suf complete the document
EmitDoc == LET t == FoldLeft(Step, s, X.suf) IN
           CSVWrite("%1$s", <<ToJson([sc |-> sc, doc |-> doc \o X.suf, m |-> Meaning(t)])>>, IOEnv.OUT)
=============================================================================
