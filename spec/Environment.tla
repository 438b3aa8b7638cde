---------------------------- MODULE Environment ----------------------------
(* Objects made by RDF environments: profiles and maps with own contents     *)
(* (Maps), and sets of statements.  The state is followed along a recorded   *)
(* history; objects are numbered in order of creation.                       *)
EXTENDS Maps, Judge
VARIABLES tid, l, st, sets
T == Log[tid]
None(f) == [n \in DOMAIN f |-> "none"]
\* what a new object starts with
Fresh(e) ==
    LET p == st[e.w] IN
    CASE e.what = "profile" -> IF e.empty THEN [pre |-> T.std, term |-> None(p.term), def |-> "none"] ELSE p
      [] e.what = "prefixes" -> [pre |-> IF e.empty THEN None(p.pre) ELSE p.pre, term |-> None(p.term), def |-> "none"]
      [] e.what = "terms" -> [pre |-> None(p.pre), term |-> IF e.empty THEN None(p.term) ELSE p.term,
                              def |-> IF e.empty THEN "none" ELSE p.def]
      [] e.what = "environment" -> [pre |-> T.std, term |-> None(T.std), def |-> "none"]
After(e) ==
    CASE e.op = "make" -> Append(st, Fresh(e))
      [] e.op = "prefix" -> [st EXCEPT ![e.w] = SetPrefix(@, e.n, e.v)]
      [] e.op = "term" -> [st EXCEPT ![e.w] = SetTerm(@, e.n, e.v)]
      [] e.op = "vocabulary" -> [st EXCEPT ![e.w] = SetVocabulary(@, e.v)]
      [] e.op = "import" -> [st EXCEPT ![e.w] = Import(@, st[e.u], e.o)]
      [] OTHER -> st
SetsAfter(e) ==
    CASE e.op = "makeset" -> Append(sets, Range(e.items))
      [] e.op = "addto" -> [sets EXCEPT ![e.w] = @ \cup {e.item}]
      [] e.op = "dropfrom" -> [sets EXCEPT ![e.w] = @ \ {e.item}]
      [] OTHER -> sets
Wants(s, q) == CASE q.k = "pre" -> ResolvePrefix(s[q.w], q.n, q.r)
                 [] q.k = "term" -> ResolveTerm(s[q.w], q.n)
Clauses(e) ==
    LET s == After(e) g == SetsAfter(e) IN
    <<<<"maps", \A i \in 1..Len(e.q) : e.q[i].got = Wants(s, e.q[i])>>,
      <<"statements", \A i \in 1..Len(e.sets) : Exactly(e.sets[i].got, g[e.sets[i].w])>>,
      <<"terms", e.terms>>>>
Init == tid \in 1..Len(Log) /\ l = 1 /\ st = <<[pre |-> Log[tid].std, term |-> None(Log[tid].std), def |-> "none"]>> /\ sets = <<>>
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, Clauses(T.ev[l]))
        /\ st' = After(T.ev[l]) /\ sets' = SetsAfter(T.ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, st, sets>>
=============================================================================
