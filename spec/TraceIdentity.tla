--------------------------- MODULE TraceIdentity ---------------------------
(* Verdicts over recorded comparisons, tables and texts of resources. *)
EXTENDS Identity, Judge
VARIABLES tid, l, st
K == INSTANCE ResourceKeys
T == Log[tid]
After(e) == CASE e.op = "put" -> Put(st, e.a, e.v)
              [] e.op = "drop" -> Without(st, e.a)
              [] OTHER -> st
Gr(q) == { <<q[i][1], q[i][2], q[i][3]>> : i \in 1..Len(q) }
Clauses(e) ==
    LET s == After(e) IN
    CASE e.op = "same" -> <<<<"equal", e.eq = Same(e.a, e.b)>>, <<"unequal", e.ne = ~Same(e.a, e.b)>>,
                            <<"hash", Same(e.a, e.b) => e.hash>>>>
      [] e.op = "distinct" -> <<<<"distinct", e.count = Cardinality({ Key(e.xs[i]) : i \in 1..Len(e.xs) })>>>>
      [] e.op = "find" -> <<<<"find", e.v = LET ps == { i \in 1..Len(e.xs) : Same(e.xs[i], e.a) } IN
                                           IF ps = {} THEN 0 ELSE CHOOSE i \in ps : \A j \in ps : i <= j>>>>
      [] e.op = "show" ->
            LET w == Shown(K!Denotes(Gr(e.G), e.s, [p |-> "label", f |-> "plain", x |-> ""], TRUE, e.own), e.subject) IN
            <<<<"shown", IF w[1] = "open" THEN TRUE ELSE e.ex = "" /\ e.text = w[2]>>, <<"unchanged", e.same>>>>
      [] e.op = "view" -> <<<<"view", e.ok>>>>
      [] e.op = "drop" -> <<<<"legal", (e.ex = "") = Holds(st, e.a)>>, <<"table", e.size = Cardinality(s)>>>>
      [] e.op = "get" -> <<<<"held", e.held = Holds(s, e.a)>>, <<"value", (IF e.held THEN {e.v} ELSE {}) = Get(s, e.a)>>>>
      [] e.op = "put" -> <<<<"table", e.size = Cardinality(s)>>>>
      [] OTHER -> <<<<"known event", FALSE>>>>
Init == tid \in 1..Len(Log) /\ l = 1 /\ st = {}
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, Clauses(T.ev[l]))
        /\ st' = After(T.ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
