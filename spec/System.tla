------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The whole of a program that uses pymantic: graphs, datasets that hold     *)
(* graphs under names, prefix profiles, documents, and resources as views of *)
(* graphs.  A heap h is [g, d, f, x]:                                        *)
(*   h.g  sequence of graphs, each a set of <<s, p, o>>                      *)
(*   h.d  sequence of datasets, each a set of <<name, index in h.g>>         *)
(*   h.f  sequence of profiles, each a set of <<prefix, iri>>                *)
(*   h.x  sequence of documents, each a set of <<s, p, o, name>>             *)
(* Step says what an operation does to the heap; what it does not mention it *)
(* leaves as it was.  A dataset holds a graph itself, not a copy of it, so   *)
(* that both show each other's changes.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Free == 0
Names(D) == { e[1] : e \in D }
At(D, n) == (CHOOSE e \in D : e[1] = n)[2]
Held(D) == { e[2] : e \in D }
Quads(h, D) == UNION { { <<t[1], t[2], t[3], e[1]>> : t \in h.g[e[2]] } : e \in D }
T3(q) == <<q[1], q[2], q[3]>>
Fits(t, pat) == \A i \in 1..Len(pat) : pat[i] = Free \/ pat[i] = t[i]
G(h, i, ts) == [h EXCEPT !.g[i] = ts]
NewG(h, ts) == [h EXCEPT !.g = Append(@, ts)]
ToSet(q) == { q[i] : i \in 1..Len(q) }
(* adding a quad makes a graph of its name where there is none *)
AddQuad(h, d, q) == IF q[4] \in Names(h.d[d]) THEN LET i == At(h.d[d], q[4]) IN G(h, i, h.g[i] \cup {T3(q)})
                    ELSE [h EXCEPT !.g = Append(@, {T3(q)}), !.d[d] = @ \cup {<<q[4], Len(h.g) + 1>>}]
RECURSIVE AddQuads(_, _, _)
AddQuads(h, d, Q) == IF Q = {} THEN h ELSE LET q == CHOOSE q \in Q : \A r \in Q : q[4] <= r[4] IN AddQuads(AddQuad(h, d, q), d, Q \ {q})
(* the triples that q takes out of the dataset D *)
Strip(h, D, Q) == [h EXCEPT !.g = [i \in 1..Len(h.g) |-> h.g[i] \ { T3(q) : q \in { q \in Q : <<q[4], i>> \in D } }]]
Of(h, g, s) == { t \in h.g[g] : t[1] = s }
Vals(h, g, s, p) == { t[3] : t \in { t \in h.g[g] : t[1] = s /\ t[2] = p } }
(* the type triple a resource of the registered class is born with *)
TypeP == 1
TypeO == 1

(* <<ok, heap after>>; an operation that is refused changes nothing *)
Do(h, a) ==
  LET op == a[1]  ok(x) == <<TRUE, x>>  no == <<FALSE, h>> IN
  CASE op = "gadd" -> ok(G(h, a[2], h.g[a[2]] \cup {a[3]}))
    [] op = "gtake" -> ok(G(h, a[2], h.g[a[2]] \cup ToSet(a[3])))
    [] op = "gdel" -> IF a[3] \in h.g[a[2]] THEN ok(G(h, a[2], h.g[a[2]] \ {a[3]})) ELSE no
    [] op = "gwipe" -> ok(G(h, a[2], { t \in h.g[a[2]] : ~Fits(t, a[3]) }))
    [] op \in {"gall", "conv"} -> ok(G(h, a[2], h.g[a[2]] \cup h.g[a[3]]))
    [] op = "gmerge" -> ok(NewG(h, h.g[a[2]] \cup h.g[a[3]]))
    [] op = "gcopy" -> ok(NewG(h, h.g[a[2]]))
    [] op = "dnew" -> ok([h EXCEPT !.d = Append(@, {})])
    [] op = "dadd" -> ok(AddQuad(h, a[2], a[3]))
    [] op = "ddel" -> IF a[3] \in Quads(h, h.d[a[2]]) THEN ok(Strip(h, h.d[a[2]], {a[3]})) ELSE no
    [] op = "dwipe" -> ok(Strip(h, h.d[a[2]], { q \in Quads(h, h.d[a[2]]) : Fits(q, a[3]) }))
    [] op = "dput" -> ok([h EXCEPT !.d[a[2]] = { e \in @ : e[1] # a[3] } \cup {<<a[3], a[4]>>}])
    [] op = "ddrop" -> IF a[3] \in Names(h.d[a[2]]) THEN ok([h EXCEPT !.d[a[2]] = { e \in @ : e[1] # a[3] }]) ELSE no
    [] op \in {"dall", "dconv"} -> ok(AddQuads(h, a[2], Quads(h, h.d[a[3]])))
    [] op = "rset" -> ok(G(h, a[2], { t \in h.g[a[2]] : ~(t[1] = a[3] /\ t[2] = a[4]) } \cup { <<a[3], a[4], o>> : o \in ToSet(a[5]) }))
    [] op = "rdel" -> ok(G(h, a[2], { t \in h.g[a[2]] : ~(t[1] = a[3] /\ t[2] = a[4]) }))
    [] op = "rerase" -> ok(G(h, a[2], h.g[a[2]] \ Of(h, a[2], a[3])))
    [] op = "rcopy" -> ok(G(h, a[2], h.g[a[2]] \cup { <<a[4], t[2], t[3]>> : t \in Of(h, a[2], a[3]) }))
    [] op = "rnew" -> ok(G(h, a[2], h.g[a[2]] \cup {<<a[3], TypeP, TypeO>>}))
    [] op = "write" -> ok([h EXCEPT !.x = Append(@, { <<t[1], t[2], t[3], Free>> : t \in h.g[a[2]] })])
    [] op = "dwrite" -> ok([h EXCEPT !.x = Append(@, Quads(h, h.d[a[2]]))])
    [] op = "read" -> IF a[3] = 0 THEN ok(NewG(h, { T3(q) : q \in h.x[a[2]] }))
                      ELSE ok(G(h, a[3], h.g[a[3]] \cup { T3(q) : q \in h.x[a[2]] }))
    [] op = "dread" -> IF a[3] = 0 THEN ok(AddQuads([h EXCEPT !.d = Append(@, {})], Len(h.d) + 1, h.x[a[2]]))
                       ELSE ok(AddQuads(h, a[3], h.x[a[2]]))
    [] op = "pset" -> ok([h EXCEPT !.f[a[2]] = { e \in @ : e[1] # a[3] } \cup {<<a[3], a[4]>>}])
    [] op = "pimp" -> ok([h EXCEPT !.f[a[2]] =
                             IF a[4] THEN { e \in @ : e[1] \notin Names(h.f[a[3]]) } \cup h.f[a[3]]
                             ELSE @ \cup { e \in h.f[a[3]] : e[1] \notin Names(h.f[a[2]]) }])
    [] op = "pnew" -> ok([h EXCEPT !.f = Append(@, h.f[a[2]])])
    [] op = "look" -> ok(h)
    [] op = "fail" -> no
(* A graph is held once by a dataset; quads are not moved between datasets that share graphs. *)
Legal(h, a) ==
  CASE a[1] = "dput" -> \A e \in h.d[a[2]] : e[2] = a[4] => e[1] = a[3]
    [] a[1] \in {"dall", "dconv"} -> a[2] # a[3] /\ Held(h.d[a[2]]) \cap Held(h.d[a[3]]) = {}
    [] OTHER -> TRUE
(* The graphs an operation may change, said independently of how. *)
Own(h, a) == CASE a[1] \in {"gadd", "gtake", "gdel", "gwipe", "gall", "conv", "rset", "rdel", "rerase", "rcopy", "rnew"} -> {a[2]}
               [] a[1] = "read" -> {a[3]}
               [] a[1] \in {"dadd", "ddel"} -> { e[2] : e \in { e \in h.d[a[2]] : e[1] = a[3][4] } }
               [] a[1] \in {"dwipe", "dall", "dconv"} -> Held(h.d[a[2]])
               [] a[1] = "dread" -> IF a[3] = 0 THEN {} ELSE Held(h.d[a[3]])
               [] OTHER -> {}
=============================================================================
