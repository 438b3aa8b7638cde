--------------------------- MODULE TraceClassDefs ---------------------------
(* Verdicts over recorded class definitions and combinations.  Before a        *)
(* definition prefixes may be declared on classes nothing derives from so far  *)
(* (decl); vs are the views of the classes made (vs[1]: the root's).           *)
(* A resolution was asked of class c while the global profile was g.           *)
EXTENDS ClassDefs, Judge
VARIABLES tid, l, vs
T == Log[tid]
Names(q) == { <<q[i][1], q[i][2]>> : i \in 1..Len(q) }
Declare(w, d) == [w EXCEPT ![d.c + 1] = (d.p :> d.v) @@ @]
RECURSIVE DeclareAll(_, _)
DeclareAll(w, ds) == IF ds = <<>> THEN w ELSE DeclareAll(Declare(w, Head(ds)), Tail(ds))
Declared(e) == DeclareAll(vs, e.decl)
Clauses(e, w) ==
    LET view(i) == w[i + 1]
        scal(i) == IF i = 0 THEN Names(T.rootscalars) ELSE Names(T.ev[i].scalars)
        bs == { e.bases[i] : i \in 1..Len(e.bases) }
        ps == { T.prefixes[i] : i \in 1..Len(T.prefixes) }
    IN <<<<"own and inherited prefixes", \A p \in ps : At(e.view, p) \in Allowed(e.own, { view(i) : i \in bs }, p)>>,
         <<"no other prefixes", \A p \in DOMAIN e.view : p \in ps>>,
         <<"declared", e.seen = w>>,
         <<"scalars", Names(e.scalars) = Scalars(UNION { scal(i) : i \in bs }, Names(e.names), e.view)>>,
         <<"resolution", \A i \in 1..Len(e.res) : LET q == e.res[i] IN q.got = Resolve(IF q.c = l THEN e.view ELSE view(q.c), q.g, q.n)>>,
         <<"others unchanged", e.kept>>>>
Init == tid \in 1..Len(Log) /\ l = 1 /\ vs = <<Log[tid].root>>
Next == /\ l <= Len(T.ev) /\ Verdict(tid, l, Clauses(T.ev[l], Declared(T.ev[l])))
        /\ vs' = Append(Declared(T.ev[l]), T.ev[l].view)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, vs>>
=============================================================================
