---------------------------- MODULE MCTurtleLex ----------------------------
(* All documents pre \o (up to n pieces of an alphabet) \o suf of given      *)
(* scenarios, with what TurtleDoc says about each, for replay.               *)
EXTENDS TurtleDoc, TLC, Json, IOUtils, CSV
VARIABLES sc, doc, k, x
vars == <<sc, doc, k, x>>
Sc == ndJsonDeserialize(IOEnv.TRACE)
Init == sc \in 1..Len(Sc) /\ doc = <<>> /\ k = 0 - 1 /\ x = [n |-> 0]
Next == \/ k = 0 - 1 /\ x' = Sc[sc] /\ doc' = Sc[sc].pre /\ k' = 0 /\ UNCHANGED sc
        \/ k >= 0 /\ k < x.n /\ k' = k + 1 /\ UNCHANGED <<sc, x>>
           /\ \E i \in 1..Len(x.alpha) : doc' = doc \o x.alpha[i]
Spec == Init /\ [][Next]_vars
View == <<sc, k = 0 - 1, doc>>
\* blank space and comments around a document change nothing
Framed == k >= 0 => LET a == doc \o x.suf m == Read(x.base, a) w == <<10, 32, 35, 34, 13>> IN
              ~m.amb => Read(x.base, w \o a \o w) = m
\* what is read are terms in their places
Shape(m) == \A i \in 1..Len(m.out) :
              Len(m.out[i]) = 3 /\ m.out[i][1][1] # "l" /\ m.out[i][2][1] \in {"i", "r"}
Emit == k >= 0 => LET a == doc \o x.suf m == Read(x.base, a) IN
           Shape(m) /\ CSVWrite("%1$s", <<ToJson([sc |-> sc, text |-> a, m |-> m])>>, IOEnv.OUT)
=============================================================================
