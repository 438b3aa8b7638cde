--------------------------- MODULE TraceListEdit ---------------------------
(* Verdicts over recorded edits and iterations of the lists of several       *)
(* graphs that may use the same nodes.                                       *)
EXTENDS ListEdit, Judge
VARIABLES tid, l, st
T == Log[tid]
After(e) ==
    LET g == st[e.w] IN
    CASE e.op = "attach" -> [st EXCEPT ![e.w] = Attach(g, e.i, e.x, e.j)]
      [] e.op = "first" -> [st EXCEPT ![e.w] = SetFirst(g, e.i, e.x)]
      [] e.op = "rest" -> [st EXCEPT ![e.w] = SetRest(g, e.i, e.j)]
      [] e.op = "detach" -> [st EXCEPT ![e.w] = Detach(g, e.i)]
      [] OTHER -> st
\* what the harness may ask for
Legal(e) ==
    LET g == st[e.w] IN
    CASE e.op = "attach" -> CanAttach(g, e.i, e.j)
      [] e.op = "first" -> Live(g, e.i)
      [] e.op = "rest" -> CanSetRest(g, e.i, e.j)
      [] e.op = "detach" -> CanDetach(g, e.i)
      [] OTHER -> TRUE
Clauses(e) ==
    LET s == After(e) IN
    <<<<"harness", Legal(e)>>,
      <<"members", \A k \in 1..Len(e.seen) : LET q == e.seen[k] IN
            IF q.i = 0 THEN q.got = <<>> ELSE IF Live(s[q.w], q.i) THEN q.got = MembersOf(s[q.w], q.i) ELSE TRUE>>,
      <<"is_list", \A k \in 1..Len(e.isl) : LET q == e.isl[k] IN
            q.got = (IF q.i = 0 THEN FALSE ELSE Live(s[q.w], q.i))>>,
      <<"unchanged", e.same>>>>
Init == tid \in 1..Len(Log) /\ l = 1 /\ st = [w \in 1..2 |-> Blank(Log[tid].n)]
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, Clauses(T.ev[l]))
        /\ st' = After(T.ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
