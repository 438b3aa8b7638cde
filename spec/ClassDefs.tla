----------------------------- MODULE ClassDefs -----------------------------
(* Definitions of resource classes: a definition has bases (earlier classes, *)
(* 0 for Resource), own prefix declarations and own scalar names             *)
(* <<prefix, rest>>.  A class sees a map of prefixes ("none": undeclared)    *)
(* and a set of scalar predicates <<namespace, rest>>.                       *)
EXTENDS Naturals, Sequences, FiniteSets
At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE "none"
\* inherited values of a prefix; where bases disagree any of theirs will do
Inherited(views, p) == { At(v, p) : v \in views } \ {"none"}
Allowed(own, views, p) ==
    IF At(own, p) # "none" THEN {own[p]}
    ELSE IF Inherited(views, p) = {} THEN {"none"} ELSE Inherited(views, p)
\* scalar names are resolved with the view of the class at its definition
Scalars(inherited, names, view) == inherited \cup { <<At(view, n[1]), n[2]>> : n \in names }
Resolvable(names, view) == \A n \in names : At(view, n[1]) # "none"
\* resolving prefix:rest: own view, then the global profile g, then refused
Resolve(view, g, n) == LET v == IF At(view, n[1]) # "none" THEN At(view, n[1]) ELSE At(g, n[1])
                       IN IF v = "none" THEN <<"ValueError">> ELSE <<v, n[2]>>
=============================================================================
