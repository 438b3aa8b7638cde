------------------------- MODULE TraceDatasetStore -------------------------
(* Histories recorded from the real Dataset, judged against DatasetStore.   *)
EXTENDS Integers, DatasetStore, Judge
VARIABLES tid, l, saved, cur
Act(e) ==
    CASE e.op = "add"    -> Add(e.arg[1])
      [] e.op = "addAll" -> AddAll(Range(e.arg))
      [] e.op = "remove" -> IF e.arg[1] \in AllQuads(graphs) THEN Remove(e.arg[1]) ELSE RemoveAbsent(e.arg[1])
      [] e.op = "removeMatches" -> RemoveMatches(e.arg[1])
      [] e.op = "addGraph" -> /\ graphs' = (e.name :> Range(e.arg)) @@ graphs
                              /\ Did("addGraph", Range(e.arg), e.name, "ok")
      [] e.op = "addUnnamed" -> AddUnnamed(Range(e.arg))
      [] e.op = "removeGraph" -> IF e.name \in DOMAIN graphs
                                 THEN /\ graphs' = [m \in DOMAIN graphs \ {e.name} |-> graphs[m]]
                                      /\ Did("removeGraph", {}, e.name, "ok")
                                 ELSE UNCHANGED graphs /\ Did("removeAbsentGraph", {}, e.name, e.res)
      [] e.op = "switch" -> graphs' = (IF e.new = cur THEN graphs ELSE saved[e.new]) /\ Did("query", {}, Default, "ok")
      [] e.op = "query" -> UNCHANGED graphs /\ Did("query", {}, Default, "ok")

\* the datasets after the event: one made to be added from stays as it was made
Sets(e) == LET now == (cur :> graphs) @@ saved
               fresh == IF e.other >= 0 THEN e.other :> AddEach([n \in {} |-> {}], Range(e.arg)) ELSE <<>>
           IN (IF e.op = "switch" THEN now ELSE (cur :> graphs') @@ fresh @@ now)

Kept(k, gs) == /\ Exactly(k.now, AllQuads(gs))
               /\ \A i \in 1..Len(k.q) : Exactly(k.q[i].r, Matching(gs, k.q[i].p))
               /\ { q[4] : q \in AllQuads(gs) } \subseteq Range(k.names) /\ Range(k.names) \subseteq DOMAIN gs
Clauses(e, gs, all) ==
    LET Q == AllQuads(gs)  names == Range(e.names)  see == Range(e.see) IN
    << <<"outcome", e.res = last'.res>>,
       <<"size", IF "size" \in see THEN e.len = Cardinality(Q) ELSE TRUE>>,
       <<"iteration", IF "iteration" \in see THEN Exactly(e.iter, Q) ELSE TRUE>>,
       <<"snapshot", IF "snapshot" \in see THEN Exactly(e.arr, Q) ELSE TRUE>>,
       <<"kept snapshot", \A i \in 1..Len(e.snaps) : Exactly(e.snaps[i].now, Range(e.snaps[i].was))>>,
       <<"membership", \A i \in 1..Len(e.mem) : e.mem[i].r = (e.mem[i].q \in Q)>>,
       <<"triple membership", \A i \in 1..Len(e.tmem) : e.tmem[i].r = Occurs(gs, e.tmem[i].t)>>,
       <<"match", \A i \in 1..Len(e.q) : Exactly(e.q[i].r, Matching(gs, e.q[i].p))>>,
       <<"names", IF "names" \in see
                  THEN /\ Len(e.names) = Cardinality(names)
                       /\ { q[4] : q \in Q } \subseteq names
                       /\ names \subseteq DOMAIN gs
                  ELSE TRUE>>,
       <<"names changed", IF "names" \in see /\ gs = graphs /\ e.op \in {"query", "remove", "addUnnamed", "removeGraph"} THEN names = Range(e.before) ELSE TRUE>>,
       <<"other dataset", \A i \in 1..Len(e.kept) : Kept(e.kept[i], all[e.kept[i].id])>> >>

TraceInit == Init /\ tid \in 1..Len(Log) /\ l = 1 /\ saved = (0 :> [n \in {} |-> {}]) /\ cur = 0
TraceNext == /\ l <= Len(Log[tid].ev)
             /\ Act(Log[tid].ev[l])
             /\ saved' = Sets(Log[tid].ev[l])
             /\ cur' = (IF Log[tid].ev[l].op = "switch" THEN Log[tid].ev[l].new ELSE cur)
             /\ Verdict(tid, l, Clauses(Log[tid].ev[l], graphs', saved'))
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l, saved, cur>>
TView == <<tid, l>>
=============================================================================
