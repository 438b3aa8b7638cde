------------------------------ MODULE TraceTerms ------------------------------
(* Verdicts over recorded histories of making, comparing and changing values.   *)
(* The pool holds every value so far; each event shows the whole pool after it,  *)
(* and which members equal the last and hash like it.                            *)
EXTENDS Judge
M == INSTANCE Terms
X == INSTANCE Xsd
VARIABLES tid, l, pool
T == Log[tid]
Native == {"int", "datetime"}
Deep == {"deepcopy", "pickle"}
Expected(e) ==
    CASE e.op = "new" -> e.x
      [] e.op \in {"copy", "make", "asdict"} -> pool[e.i]
      [] e.op = "replace" -> M!Replace(pool[e.i], e.fs)
      [] e.op \in {"set", "del"} -> M!Error
      [] e.op = "triple" -> M!AsTriple(pool[e.i])
      [] e.op = "quad" -> M!AsQuad(e.g, pool[e.i])
\* the pool after the event, as far as it is determined
After(e) ==
    IF e.op \in Deep THEN Append(pool, e.pool[Len(e.pool)])
    ELSE IF Expected(e) = M!Error THEN pool
    ELSE Append(pool, Expected(e))
Blanks(y) == { M!Parts(y)[k].v : k \in { n \in 1..4 : M!Parts(y)[n].k = "b" } }
ClausesOf(e) ==
    IF e.op \in Native
    THEN << <<"datatype", e.dt = e.want>>,
            <<"lexical form", IF e.op = "int" THEN e.lex = X!IntegerForm(e.neg, e.ds)
                              ELSE X!ReadDateTime(e.lex) = e.fields>> >>
    ELSE LET q == After(e)  n == Len(q)  y == q[n] IN
         << <<"pool", IF Len(e.pool) # n THEN FALSE ELSE \A k \in 1..n : e.pool[k] = q[k]>>,
            <<"raises", (e.exc # "") <=> (e.op \notin Deep /\ Expected(e) = M!Error)>>,
            <<"deep", e.op \in Deep => IF M!HasBlanks(pool[e.i]) THEN M!SameButBlanks(pool[e.i], y) ELSE y = pool[e.i]>>,
            <<"equal", Len(e.pool) = n => Range(e.eq) = { k \in 1..n : q[k] = y }>>,
            <<"hash", Len(e.pool) = n => { k \in 1..n : q[k] = y } \subseteq Range(e.hash)>> >>
Init == tid \in 1..Len(Log) /\ l = 1 /\ pool = <<>>
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, ClausesOf(T.ev[l]))
        /\ l' = l + 1 /\ pool' = (IF T.ev[l].op \in Native THEN pool ELSE After(T.ev[l])) /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, pool>>
=============================================================================
