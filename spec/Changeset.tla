------------------------------ MODULE Changeset ------------------------------
(* The difference of two sets of statements, and its description as a change  *)
(* set: one node of type ChangeSet with a date and the graph it is about, and  *)
(* one reified statement for everything removed or added.                      *)
(* Statements are <<s, p, o>>; graphs are sets of them.                        *)
EXTENDS Integers, Sequences, FiniteSets
Removed(a, b, ex) == { t \in a : t \notin b /\ t[2] \notin ex }
Added(a, b, ex) == { t \in b : t \notin a /\ t[2] \notin ex }
Apply(a, rem, add) == (a \ rem) \cup add

(* ---- reading a change set graph g ---- *)
Objects(g, s, p) == { t[3] : t \in { u \in g : u[1] = s /\ u[2] = p } }
Subjects(g, p, o) == { t[1] : t \in { u \in g : u[2] = p /\ u[3] = o } }
Sets(g) == Subjects(g, "type", "ChangeSet")
\* what a reified statement node says
Said(g, n) == { <<s, p, o>> : s \in Objects(g, n, "subject"), p \in Objects(g, n, "predicate"), o \in Objects(g, n, "object") }
OneEach(g, n) == /\ Cardinality(Objects(g, n, "subject")) = 1 /\ Cardinality(Objects(g, n, "predicate")) = 1
                 /\ Cardinality(Objects(g, n, "object")) = 1 /\ Objects(g, n, "type") = {"Statement"}
\* the nodes N describe exactly the statements S, each once
Describe(g, N, S) == /\ \A n \in N : OneEach(g, n)
                     /\ Cardinality(N) = Cardinality(S)
                     /\ UNION { Said(g, n) : n \in N } = S
Clauses(g, name, rem, add) ==
    << <<"one change set", Cardinality(Sets(g)) = 1>>,
       <<"about", \A c \in Sets(g) : Objects(g, c, "subjectOfChange") = {name}>>,
       <<"date", \A c \in Sets(g) : Cardinality(Objects(g, c, "createdDate")) = 1>>,
       <<"removals", \A c \in Sets(g) : Describe(g, Objects(g, c, "removal"), rem)>>,
       <<"additions", \A c \in Sets(g) : Describe(g, Objects(g, c, "addition"), add)>>,
       <<"removed and added", \A c \in Sets(g) : Objects(g, c, "removal") \cap Objects(g, c, "addition") = {}>>,
       <<"nothing else", Cardinality(g) = 3 + (5 * (Cardinality(rem) + Cardinality(add)))>> >>
=============================================================================
