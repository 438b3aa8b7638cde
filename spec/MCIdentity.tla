----------------------------- MODULE MCIdentity -----------------------------
(* All tables over a few things and every call on them. *)
EXTENDS Identity, TLC, Json, IOUtils, CSV
CONSTANTS V
VARIABLES t, last
Th(h, n, c) == [h |-> h, n |-> n, c |-> c]
Things == <<Th("res", "x", "1"), Th("res", "x", "2"), Th("iri", "x", "1"), Th("text", "x", ""), Th("res", "y", "1"), Th("iri", "y", "2"), Th("text", "y", ""),
            Th("bres", "b", "1"), Th("bres", "b", "2"), Th("bn", "b", ""), Th("lit", "x", "")>>
Init == t = {} /\ last = <<"none">>
Next == \E i \in 1..Len(Things) : LET x == Things[i] IN
          \/ \E v \in 1..V : t' = Put(t, x, v) /\ last' = <<"put", i, v>>
          \/ Holds(t, x) /\ t' = Without(t, x) /\ last' = <<"drop", i>>
Spec == Init /\ [][Next]_<<t, last>>
View == t
Function == \A e, f \in t : e[1] = f[1] => e = f
Equivalence == \A i, j, k \in 1..Len(Things) : LET x == Things[i] y == Things[j] z == Things[k] IN
                  Same(x, x) /\ (Same(x, y) => Same(y, x)) /\ (Same(x, y) /\ Same(y, z) => Same(x, z))
\* a call on a thing shows on the things that are the same and on no others
Local == [][\A i \in 1..Len(Things) : ~Same(Things[i], Things[last'[2]]) => Get(t, Things[i]) = Get(t', Things[i])]_<<t, last>>
Emit == CSVWrite("%1$s", <<ToJson([f |-> t, a |-> last', t |-> t'])>>, IOEnv.OUT)
Seen == [i \in 1..Len(Things) |-> Get(t, Things[i])]
EmitObs == CSVWrite("%1$s", <<ToJson([s |-> t, m |-> Seen, x |-> Things])>>, IOEnv.OUT)
=============================================================================
