-------------------------------- MODULE Maps --------------------------------
(* Profiles: a prefix map (name "" being the default prefix), a term map and *)
(* the default vocabulary of the term map. A profile is                      *)
(* [pre: name -> value, term: name -> value, def: value]; "none": not set.   *)
EXTENDS Naturals, Sequences, FiniteSets
Get(f, n) == IF n \in DOMAIN f THEN f[n] ELSE "none"
Put(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]
Merge(f, g, override) ==
    [m \in DOMAIN f \cup DOMAIN g |->
        IF Get(g, m) # "none" /\ (override \/ Get(f, m) = "none") THEN g[m] ELSE Get(f, m)]
SetPrefix(p, n, v) == [p EXCEPT !.pre = Put(@, n, v)]
SetTerm(p, n, v) == [p EXCEPT !.term = Put(@, n, v)]
SetVocabulary(p, v) == [p EXCEPT !.def = v]
ImportPrefixes(p, q, override) == [p EXCEPT !.pre = Merge(@, q.pre, override)]
ImportTerms(p, q, override) == [p EXCEPT !.term = Merge(@, q.term, override)]
Import(p, q, override) == ImportTerms(ImportPrefixes(p, q, override), q, override)

ResolvePrefix(p, n, rest) == IF Get(p.pre, n) = "none" THEN <<"ValueError">> ELSE <<Get(p.pre, n), rest>>
ResolveTerm(p, t) == IF Get(p.term, t) # "none" THEN <<Get(p.term, t), "">>
                     ELSE IF p.def # "none" THEN <<p.def, t>> ELSE <<"None">>
\* the terms a value may be shrunk to
TermsOf(p, v) == { t \in DOMAIN p.term : p.term[t] = v }
=============================================================================
