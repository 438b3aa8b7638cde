----------------------------- MODULE TraceSystem -----------------------------
(* Verdicts over recorded histories of whole programs. *)
EXTENDS System, Judge
VARIABLES tid, l, h
T == Log[tid]
Start(t) == [g |-> [i \in 1..t.ng |-> {}], d |-> [i \in 1..t.nd |-> {}], f |-> [i \in 1..Len(t.f) |-> Range(t.f[i])], x |-> <<>>]
\* what could be observed of the objects; ok = FALSE: it was not looked at
Match(seen, want) == /\ Len(seen) = Len(want)
                     /\ \A i \in 1..Len(seen) : IF seen[i].ok THEN Exactly(seen[i].v, want[i]) ELSE TRUE
Clauses(e, n) ==
    << <<"legal", Legal(h, e.a)>>,
       <<"outcome", e.ok = Do(h, e.a)[1]>>,
       <<"graphs", Match(e.g, n.g)>>,
       <<"datasets", Match(e.d, [i \in 1..Len(n.d) |-> Quads(n, n.d[i])])>>,
       <<"names", \A i \in 1..Len(e.n) : IF e.n[i].ok THEN Exactly(e.n[i].v, { e2 \in Names(n.d[i]) : n.g[At(n.d[i], e2)] # {} }) ELSE TRUE>>,
       <<"profiles", Match(e.f, n.f)>>,
       <<"documents", e.x>>, <<"snapshots", e.kept>>, <<"returned", e.ret>>,
       <<"resources", \A i \in 1..Len(e.r) : Exactly(e.r[i].v, Vals(n, e.r[i].g, e.r[i].s, e.r[i].p))>> >>
TInit == tid \in 1..Len(Log) /\ l = 1 /\ h = Start(Log[tid])
TNext == /\ l <= Len(T.ev)
         /\ h' = Do(h, T.ev[l].a)[2]
         /\ Verdict(tid, l, Clauses(T.ev[l], h'))
         /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<tid, l, h>>
TView == <<tid, l>>
=============================================================================
