----------------------------- MODULE MCClassify -----------------------------
(* All registrations and type sets, with the cache of combined classes: the  *)
(* outcome depends on nothing else.  Every transition is emitted.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Types, Classes, Extra
VARIABLES reg, has, cache, last
Bases(c) == CASE c = "C3" -> {"C1"} [] c = "C4" -> {"C1", "C2"} [] c = "C5" -> {"C1", "C3"} [] OTHER -> {}
AboveOf(c) == {c} \cup Bases(c)
C == INSTANCE Classify WITH Above <- AboveOf
vars == <<reg, has, cache, last>>
Init == reg = [t \in Types |-> "none"] /\ has = {} /\ cache = {} /\ last = <<"none">>
State == [reg |-> reg, has |-> has]
Register(t, c) == /\ reg' = [reg EXCEPT ![t] = c] /\ UNCHANGED <<has, cache>> /\ last' = <<"register", t, c>>
AddType(t) == t \notin has /\ has' = has \cup {t} /\ UNCHANGED <<reg, cache>> /\ last' = <<"add", t>>
DropType(t) == t \in has /\ has' = has \ {t} /\ UNCHANGED <<reg, cache>> /\ last' = <<"drop", t>>
Classify == /\ Cardinality(C!Minimal(reg, has)) > 1
            /\ cache' = cache \cup {<<C!Key(reg, has), C!Made(reg, has)>>}
            /\ UNCHANGED <<reg, has>> /\ last' = <<"classify">>
Next == \/ \E t \in Types, c \in Classes : Register(t, c)
        \/ \E t \in Types \cup Extra : AddType(t) \/ DropType(t)
        \/ Classify
Spec == Init /\ [][Next]_vars
\* what the cache holds for the present key is what the specification demands
Faithful == /\ C!Made(reg, has) = C!InstanceOf(reg, has)
            /\ \A e \in cache : e[1] = C!Key(reg, has) => e[2] = C!InstanceOf(reg, has)
            /\ (C!ClassesFor(reg, has) = {} <=> C!InstanceOf(reg, has) = {})
Order == \A t \in Types : \A c \in Classes : reg[t] = c /\ t \in has => c \in C!InstanceOf(reg, has)
\* the transitions and what classification has to give after each: the cache is hidden
View == <<reg, has>>
Emit == CSVWrite("%1$s", <<ToJson([f |-> <<reg, has>>, a |-> last', t |-> <<reg', has'>>, i |-> C!InstanceOf(reg', has')])>>, IOEnv.OUT)
=============================================================================
