-------------------------- MODULE TraceGraphStore --------------------------
(* Validates histories recorded from real Graphs against GraphStore: every  *)
(* event is one GraphStore action on the graph at hand, the other graphs     *)
(* (operands and results of merges) stay as they are and are come back to.   *)
(* Every logged observation is compared with what the specification's state *)
(* prescribes; an event may look at some clauses only (e.see).  The verdict *)
(* is total: a clause that fails is printed and the run goes on.            *)
EXTENDS GraphStore, Judge
VARIABLES tid, l, saved, cur
Ev(n, i) == Log[n].ev[i]

Load(T) == Become(AddEach([held |-> {}, spo |-> Empty, pos |-> Empty, osp |-> Empty], T))
Act(e) ==
    CASE e.op = "add"    -> Add(e.arg[1])
      [] e.op = "addAll" -> AddAll(Range(e.arg))
      [] e.op = "addSelf" -> AddSelf
      [] e.op = "remove" -> IF e.arg[1] \in held THEN Remove(e.arg[1]) ELSE RemoveAbsent(e.arg[1])
      [] e.op = "removeMatches" -> RemoveMatches(e.arg[1])
      [] e.op = "merge"  -> Merge(Range(e.arg))
      [] e.op = "switch" -> Load(IF e.new = cur THEN held ELSE saved[e.new]) /\ last' = [op |-> "query", arg |-> {}, res |-> "self"]
      [] e.op = "query"  -> Same /\ last' = [op |-> "query", arg |-> {}, res |-> "self"]

\* the graphs after the event: a merge makes its second operand (where that was made for it) and its result
Graphs(e) ==
    LET now == (cur :> held) @@ saved
        made == IF e.op = "merge" THEN (e.new :> held') @@ (IF e.other \in DOMAIN now THEN Empty ELSE e.other :> Range(e.arg)) ELSE (cur :> IF e.op = "switch" THEN held ELSE held')
    IN made @@ now
At(e) == IF e.op \in {"merge", "switch"} THEN e.new ELSE cur

Kept(e, k, T) == /\ Exactly(k.now, T)
                 /\ \A i \in 1..Len(k.q) : Exactly(k.q[i].r, Matching(T, k.q[i].p))
                 /\ Exactly(k.subj, Subjects(T)) /\ Exactly(k.pred, Predicates(T)) /\ Exactly(k.obj, Objects(T))
Clauses(e, T, all) ==
    << <<"outcome", e.res = last'.res>>,
       <<"size", IF "size" \in Range(e.see) THEN e.len = Cardinality(T) ELSE TRUE>>,
       <<"iteration", IF "iteration" \in Range(e.see) THEN Exactly(e.iter, T) ELSE TRUE>>,
       <<"snapshot", IF "snapshot" \in Range(e.see) THEN Exactly(e.arr, T) ELSE TRUE>>,
       <<"kept snapshot", \A i \in 1..Len(e.snaps) : Exactly(e.snaps[i].now, Range(e.snaps[i].was))>>,
       <<"membership", \A i \in 1..Len(e.mem) : e.mem[i].r = (e.mem[i].t \in T)>>,
       <<"match", \A i \in 1..Len(e.q) : Exactly(e.q[i].r, Matching(T, e.q[i].p))>>,
       <<"subjects", IF "subjects" \in Range(e.see) THEN Exactly(e.subj, Subjects(T)) ELSE TRUE>>,
       <<"predicates", IF "predicates" \in Range(e.see) THEN Exactly(e.pred, Predicates(T)) ELSE TRUE>>,
       <<"objects", IF "objects" \in Range(e.see) THEN Exactly(e.obj, Objects(T)) ELSE TRUE>>,
       <<"operand", \A i \in 1..Len(e.kept) : Kept(e, e.kept[i], all[e.kept[i].id])>> >>

TraceInit == Init /\ tid \in 1..Len(Log) /\ l = 1 /\ saved = (0 :> {}) /\ cur = 0
TraceNext == /\ l <= Len(Log[tid].ev)
             /\ Act(Ev(tid, l))
             /\ saved' = Graphs(Ev(tid, l))
             /\ cur' = At(Ev(tid, l))
             /\ Verdict(tid, l, Clauses(Ev(tid, l), held', saved'))
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l, saved, cur>>
TView == <<tid, l>>
=============================================================================
