------------------------------ MODULE TraceMaps ------------------------------
(* Verdicts over recorded histories of several profiles and maps: the state  *)
(* is the specification's, followed along the recorded calls.                *)
EXTENDS Maps, Judge
VARIABLES tid, l, st
T == Log[tid]
Plain(q) == [pre |-> q.pre, term |-> q.term, def |-> q.def]
After(e) ==
    CASE e.op = "create" -> Append(st, Plain(e))
      [] e.op = "prefix" -> [st EXCEPT ![e.w] = SetPrefix(@, e.n, e.v)]
      [] e.op = "term" -> [st EXCEPT ![e.w] = SetTerm(@, e.n, e.v)]
      [] e.op = "vocabulary" -> [st EXCEPT ![e.w] = SetVocabulary(@, e.v)]
      [] e.op = "import" -> [st EXCEPT ![e.w] = Import(@, IF e.u = 0 THEN Plain(e) ELSE st[e.u], e.o)]
      [] e.op = "importPrefixes" -> [st EXCEPT ![e.w] = ImportPrefixes(@, IF e.u = 0 THEN Plain(e) ELSE st[e.u], e.o)]
      [] e.op = "importTerms" -> [st EXCEPT ![e.w] = ImportTerms(@, IF e.u = 0 THEN Plain(e) ELSE st[e.u], e.o)]
      \* a new object from an existing one: all of it, its prefixes or its terms
      [] e.op = "copy" -> Append(st, st[e.w])
      [] OTHER -> st
Wants(s, q) == CASE q.k = "pre" -> ResolvePrefix(s[q.w], q.n, q.r)
                 [] q.k = "term" -> ResolveTerm(s[q.w], q.n)
Clauses(e) ==
    LET s == After(e) IN
    <<<<"returned", e.ret>>,
      <<"resolution", \A i \in 1..Len(e.q) : e.q[i].k \in {"pre", "term"} => e.q[i].got = Wants(s, e.q[i])>>,
      <<"shrinking", \A i \in 1..Len(e.q) : e.q[i].k = "shrink" =>
            LET ts == TermsOf(s[e.q[i].w], e.q[i].n) IN
            IF ts = {} THEN e.q[i].got = <<"same">> ELSE Len(e.q[i].got) = 2 /\ e.q[i].got[2] \in ts>>>>
Init == tid \in 1..Len(Log) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, Clauses(T.ev[l]))
        /\ st' = After(T.ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
