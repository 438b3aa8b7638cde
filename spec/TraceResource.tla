--------------------------- MODULE TraceResource ---------------------------
(* Verdicts over recorded calls of the resource layer: graph before and      *)
(* after each call, arguments, and what was returned.                        *)
EXTENDS ResourceKeys, Judge
VARIABLES tid, l
Ev == Log[tid].ev[l]
Gr(q) == { <<q[i][1], q[i][2], q[i][3]>> : i \in 1..Len(q) }
Ref(n) == [k |-> "r", v |-> n, g |-> <<>>, d |-> ""]
Has(G, n, tys) == Range(tys) \subseteq Types(G, n)
Subjects(G) == { t[1] : t \in G }
\* the registered classes a returned resource has to have, no others
ClassesOf(G, n) == UNION { Supers(t) : t \in Types(G, n) }
Judged(G, vals) == \A i \in 1..Len(vals) : vals[i].o.k = "r" => Range(vals[i].c) = ClassesOf(G, vals[i].o.v)
Items(vals) == [i \in 1..Len(vals) |-> vals[i].o]
Clauses(e) ==
    LET G == Gr(e.G) H == Gr(e.H) IN
    CASE e.op = "read" ->
            LET D == Denotes(G, e.s, e.k, e.sc, e.own) one == Single(e.k, e.sc) IN
            <<<<"unchanged", H = G>>,
              <<"ambiguous", e.ex = IF one /\ Cardinality(D) > 1 THEN "ValueError" ELSE "">>,
              <<"selected", e.ex # "" \/ Exactly(Items(e.vals), D)>>,
              <<"classes", e.ex # "" \/ Judged(G, e.vals)>>>>
      [] e.op = "select" -> <<<<"unchanged", H = G>>,
                              <<"selected", e.ex = "" /\ Exactly(Items(e.vals), Selected(G, e.s, e.p, e.sel, e.x))>>>>
      [] e.op = "in" -> <<<<"unchanged", H = G>>, <<"member", e.ex = "" /\ e.b = (Denotes(G, e.s, e.k, e.sc, e.own) # {})>>>>
      [] e.op = "del" -> <<<<"deleted", e.ex = "" /\ H = Deleted(G, e.s, e.k, e.sc, e.own)>>>>
      [] e.op = "set" ->
            IF Fit(G, e.its, e.coll, e.k, e.sc, e.own)
            THEN <<<<"accepted", e.ex = "">>, <<"assigned", H = Assigned(G, e.s, e.its, e.coll, e.k, e.sc, e.own)>>>>
            ELSE <<<<"refused", e.ex = "ValueError">>, <<"untouched", H = G>>>>
      [] e.op = "new" -> <<<<"types added", H = G \cup With(e.s, "type", { Ref(t) : t \in Range(e.tys) })>>,
                           <<"fresh", ~e.fresh \/ (e.s \notin Subjects(G) /\ \A t \in G : t[3] # Ref(e.s))>>,
                           <<"class", e.b>>>>
      [] e.op = "erase" -> <<<<"erased", e.ex = "" /\ H = { t \in G : t[1] # e.s }>>>>
      [] e.op = "copy" -> <<<<"copied", e.ex = "" /\ H = G \cup { <<e.to, t[2], t[3]>> : t \in { u \in G : u[1] = e.s } }>>,
                            <<"target", Items(e.vals) = <<Ref(e.to)>> /\ Judged(H, e.vals)>>>>
      [] e.op = "isa" -> <<<<"unchanged", H = G>>, <<"instance", e.ex = "" /\ e.b = Has(G, e.s, e.tys)>>>>
      [] e.op = "instances" -> <<<<"unchanged", H = G>>,
                                 <<"instances", Exactly(Items(e.vals), { Ref(n) : n \in { m \in Subjects(G) : Has(G, m, e.tys) } })>>>>
      [] e.op = "pointers" -> <<<<"unchanged", H = G>>,
                                <<"pointers", Exactly(Items(e.vals), { Ref(t[1]) : t \in { u \in G : u[2] = e.p /\ u[3] = Ref(e.s) } })>>,
                                <<"classes", Judged(G, e.vals)>>>>
      [] e.op = "allpointers" -> <<<<"unchanged", H = G>>,
                                   <<"pointers", Exactly([i \in 1..Len(e.vals) |-> <<e.vals[i].o, e.vals[i].p>>],
                                                         { <<Ref(t[1]), t[2]>> : t \in { u \in G : u[3] = Ref(e.s) } })>>>>
      [] e.op = "pairs" -> <<<<"unchanged", H = G>>,
                             <<"pairs", Exactly([i \in 1..Len(e.vals) |-> <<e.vals[i].p, e.vals[i].o>>],
                                                { <<t[2], t[3]>> : t \in { u \in G : u[1] = e.s } })>>>>
      [] OTHER -> <<>>
Init == tid \in 1..Len(Log) /\ l = 1
Next == /\ l <= Len(Log[tid].ev) /\ Verdict(tid, l, Clauses(Ev))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
