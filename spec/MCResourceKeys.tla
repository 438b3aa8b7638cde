--------------------------- MODULE MCResourceKeys ---------------------------
(* The definitions of ResourceKeys over every content of one predicate:      *)
(* what was assigned can be read back by the same key, nothing else of that  *)
(* key remains, and deleting leaves nothing the key denotes.                 *)
EXTENDS ResourceKeys, TLC
VARIABLES G, sc, key
L(v, g, d) == [k |-> "l", v |-> v, g |-> g, d |-> d]
Ref(v) == [k |-> "r", v |-> v, g |-> <<>>, d |-> ""]
En == <<"en", "">>  EnUs == <<"en", "us">>  Fr == <<"fr", "">>
Universe == {L("a", En, ""), L("a", EnUs, ""), L("a", Fr, ""), L("a", <<>>, ""), L("5", <<>>, "int"), L("b", <<>>, "date"),
             Ref("x"), Ref("y"), Ref("z")}
TypeTriples == {<<"x", "type", Ref("TA")>>, <<"y", "type", Ref("TB")>>}
Keys == { [p |-> "p", f |-> f, x |-> ""] : f \in {"plain", "all", "empty"} }
        \cup { [p |-> "p", f |-> "lang", x |-> l] : l \in {En, EnUs, Fr} }
        \cup { [p |-> "p", f |-> "dt", x |-> d] : d \in {"int", "date"} }
        \cup { [p |-> "p", f |-> "class", x |-> c] : c \in {"A", "B", "C", "Resource"} }
Neighbours == {<<"s", "q", L("a", En, "")>>, <<"t", "p", Ref("x")>>}
Init == G = TypeTriples \cup Neighbours /\ sc \in BOOLEAN /\ key \in Keys
Values == { [f |-> "term", o |-> o, c |-> <<>>] : o \in Universe } \cup {[f |-> "str", o |-> [v |-> "a"], c |-> <<>>]}
Next == /\ UNCHANGED <<sc, key>>
        /\ \/ \E o \in Universe : G' = G \cup {<<"s", "p", o>>}
           \/ \E i \in Values : Fit(G, <<i>>, FALSE, key, sc, En) /\ G' = Assigned(G, "s", <<i>>, FALSE, key, sc, En)
           \/ \E i, j \in Values : Fit(G, <<i, j>>, TRUE, key, sc, En) /\ G' = Assigned(G, "s", <<i, j>>, TRUE, key, sc, En)
           \/ G' = Deleted(G, "s", key, sc, En)
Spec == Init /\ [][Next]_<<G, sc, key>>
Others(H) == { t \in H : ~(t[1] = "s" /\ t[2] = "p") }
Frame == Others(G) = TypeTriples \cup Neighbours
Read(H) == Denotes(H, "s", key, sc, En)
DeleteEmpties == key.f # "plain" \/ ~sc => Read(Deleted(G, "s", key, sc, En)) = {}
\* what is assigned is read back, and nothing else that the key denoted
ReadBack == \A i \in Values : Fit(G, <<i>>, FALSE, key, sc, En) =>
    LET H == Assigned(G, "s", <<i>>, FALSE, key, sc, En) o == Item(i, key, sc, En) IN
    <<"s", "p", o>> \in H
    /\ (key.f \in {"plain", "all", "lang", "dt"} /\ o.k = "l" /\ (o.g = <<>> \/ LangMatch(o.g, En) \/ key.f \notin {"plain"}) => Read(H) = {o})
    /\ (o.k = "r" /\ (key.f = "class" \/ (~sc /\ key.f # "empty") \/ (sc /\ key.f = "plain")) => Read(H) = {o})
\* assigning twice is assigning once
Idempotent == \A i \in Values : Fit(G, <<i>>, FALSE, key, sc, En) =>
    LET H == Assigned(G, "s", <<i>>, FALSE, key, sc, En) IN Assigned(H, "s", <<i>>, FALSE, key, sc, En) = H
\* a scalar holds at most one object of a language, or one without
OneValue == sc /\ key.f # "all" => \A i \in Values : Fit(G, <<i>>, FALSE, key, sc, En) =>
    LET H == Assigned(G, "s", <<i>>, FALSE, key, sc, En) o == Item(i, key, sc, En) IN
    (o.k = "r" \/ o.d # "") /\ key.f # "lang" => Objs(H, "s", "p") = {o}
=============================================================================
