------------------------------ MODULE MCCurie ------------------------------
(* All maps over small prefixes and namespaces, all short texts: shrinking   *)
(* and resolving are inverse.  Emits the maps and texts for replay.          *)
EXTENDS Curie, TLC, Json, IOUtils, CSV
CONSTANTS N, Namespaces
VARIABLES map, phase
Prefixes == { <<>>, <<"a">>, <<"s">>, <<"n">> }
Schemes == { <<"s">> }
NS == CASE Namespaces = 1 -> { <<"n">>, <<"n", ":">>, <<"n", ":", "a">>, <<"s", ":">>, <<>> }
        [] OTHER -> { <<"n">>, <<"n", ":">>, <<"n", ":", "a">>, <<"s", ":">>, <<>>, <<":", ":">>, <<"a", "n">> }
Alphabet == {":", "a", "n", "s"}
Words == UNION { [1..k -> Alphabet] : k \in 0..N }
Init == map = {} /\ phase = 0
Next == /\ phase = 0 /\ phase' = 1
        /\ \E D \in SUBSET Prefixes : \E f \in [D -> NS] : map' = { <<p, f[p]>> : p \in D }
Spec == Init /\ [][Next]_<<map, phase>>
RoundTrip ==
    phase = 1 => \A i \in Words : \A c \in Shrunk(i, map) :
        IF ~Abbreviated(i, map) THEN c = i
        ELSE /\ Resolved(Explicit(c), map, Schemes) = <<"iri", i>>
             /\ LET p == SubSeq(c, 1, Least(Colons(c)) - 1) IN p \notin Schemes => Resolved(c, map, Schemes) = <<"iri", i>>
\* a resolved text with a declared, unambiguous namespace is abbreviated by the longest there is
Longest ==
    phase = 1 => \A i \in Words : \A c \in Shrunk(i, map) : \A m \in map :
        CurieStartsWith(i, m[2]) => Len(c) - (Least(Colons(c))) <= Len(i) - Len(m[2])
Emit == IF phase = 1 THEN CSVWrite("%1$s", <<ToJson(map)>>, IOEnv.OUT) ELSE TRUE
=============================================================================
