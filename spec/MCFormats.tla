---- MODULE MCFormats ----
(* The N-Triples documents of given scenarios, read as each of the formats,   *)
(* and carrying.                                                              *)
EXTENDS Formats, TLC, Json, IOUtils, CSV
VARIABLES sc, doc, k
vars == <<sc, doc, k>>
Sc == ndJsonDeserialize(IOEnv.TRACE)
X == Sc[sc]
Init == sc \in 1..Len(Sc) /\ doc = X.pre /\ k = 0
Next == /\ k < X.n /\ Run(FALSE, doc).m # "dead"
        /\ \E i \in 1..Len(X.alpha) : doc' = doc \o X.alpha[i]
        /\ k' = k + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
View == <<sc, doc>>
Text == doc \o X.suf
Inclusion == Included(Text)
\* carrying twice, or by several formats in any order, is carrying once by each
Carried == LET m == Read("nt", Text) IN
    \A i \in 1..Len(m.out) : LET s == m.out[i] q == Carry("nt", s) IN
        /\ Carry("nt", q) = q /\ Carry("ttl", q) = q /\ Carry("nt", Carry("ttl", s)) = q /\ Carry("nq", s) = q
Emit == LET m == Read("nt", Text) IN
          (m.ok /\ ~m.amb) => CSVWrite("%1$s", <<ToJson([text |-> Text, out |-> m.out, ttl |-> ColonFree(m.out)])>>, IOEnv.OUT)
====
