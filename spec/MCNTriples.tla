---------------------------- MODULE MCNTriples ----------------------------
(* All documents pre \o (up to n pieces of an alphabet) \o suf of given     *)
(* scenarios, with what NTriples says about each, for replay.               *)
EXTENDS NTriples, TLC, Json, IOUtils, CSV
VARIABLES sc, doc, s, k
vars == <<sc, doc, s, k>>
Sc == ndJsonDeserialize(IOEnv.TRACE)
X == Sc[sc]

Init == /\ sc \in 1..Len(Sc)
        /\ doc = X.pre /\ k = 0
        /\ s = Run(X.q, X.pre)
Next == /\ k < X.n /\ s.m # "dead"
        /\ \E i \in 1..Len(X.alpha) : /\ doc' = doc \o X.alpha[i]
                                      /\ s' = FoldLeft(Step, s, X.alpha[i])
        /\ k' = k + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
View == <<sc, doc>>

Incremental == s = Run(X.q, doc)
Shape == \A i \in 1..Len(s.out) :
            /\ Len(s.out[i]) = 3 \/ (X.q /\ Len(s.out[i]) = 4)
            /\ s.out[i][1].k # "l" /\ s.out[i][2].k = "i"
            /\ ~(s.out[i][3].g # <<>> /\ s.out[i][3].d # <<>>)
Monotone == [][SubSeq(s'.out, 1, Len(s.out)) = s.out]_vars
\* an accepted document followed by a line end and an accepted document means both together
Compose == Accepts(s) => LET t == Parse(X.q, doc \o <<10>> \o doc) IN t.ok /\ t.out = Statements(s) \o Statements(s)
EmitDoc == LET t == FoldLeft(Step, s, X.suf) IN
           CSVWrite("%1$s", <<ToJson([q |-> X.q, text |-> doc \o X.suf, m |-> Meaning(t)])>>, IOEnv.OUT)
=============================================================================
