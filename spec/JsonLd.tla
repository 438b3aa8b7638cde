-------------------------------- MODULE JsonLd --------------------------------
(* What a JSON-LD document denotes.  A document is the sequence of tokens met    *)
(* when walking it: nodes open and close, with types, properties, reverse        *)
(* properties, lists and graphs in them.  The machine keeps a stack of open      *)
(* structures and emits quads <<subject, predicate, object, graph>>.             *)
(*                                                                               *)
(* Terms: [k |-> "i" | "b" | "l" | "d", v, g, d] (IRI, blank node, literal with  *)
(* language g and datatype d, default graph); texts are uninterpreted.           *)
(* Tokens: [t |-> "node", x |-> term or Anon], [t |-> "type", x], [t |-> "prop",  *)
(* x], [t |-> "rev", x], [t |-> "val", x], [t |-> "list"], [t |-> "graph"],       *)
(* [t |-> "null"], [t |-> "end"].                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Term(k, v) == [k |-> k, v |-> v, g |-> "", d |-> ""]
Iri(v) == Term("i", v)
Default == Term("d", "")
Anon == Term("a", "")
Fresh(n) == Term("b", "anonymous " \o ToString(n))
RdfType == Iri("rdf:type")
RdfFirst == Iri("rdf:first")
RdfRest == Iri("rdf:rest")
RdfNil == Iri("rdf:nil")

\* frames: k is "top", "graph", "node", "prop", "rev" or "list"; s, p: what values are attached to; g: graph; used: has an identifier, a type or a value
Frame(k, s, p, g) == [k |-> k, s |-> s, p |-> p, g |-> g, used |-> FALSE]
Start == [stack |-> <<Frame("top", Default, Default, Default)>>, out |-> {}, n |-> 0]
Top(m) == m.stack[Len(m.stack)]
Push(m, f) == [m EXCEPT !.stack = Append(@, f)]
Pop(m) == [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Put(m, s, p, o, g) == [m EXCEPT !.out = @ \cup {<<s, p, o, g>>}]
Set(m, f) == [m EXCEPT !.stack[Len(m.stack)] = f]
Mark(m) == Set(m, [Top(m) EXCEPT !.used = TRUE])
\* a value in the innermost open structure
Attach(m, x) ==
    LET f == Top(m) IN
    CASE f.k \in {"top", "graph"} -> m
      [] f.k = "prop" -> Mark(Put(m, f.s, f.p, x, f.g))
      [] f.k = "rev" -> Mark(Put(m, x, f.p, f.s, f.g))
      [] f.k = "list" -> LET c == Fresh(m.n) IN
                         Set([Put(Put(m, f.s, f.p, c, f.g), c, RdfFirst, x, f.g) EXCEPT !.n = @ + 1],
                             [f EXCEPT !.s = c, !.p = RdfRest])
Values == {"prop", "list"}
May(m, t) ==
    LET f == Top(m) IN
    CASE t.t = "node" -> f.k # "node"
      [] t.t = "type" -> f.k = "node"
      [] t.t \in {"prop", "rev"} -> f.k = "node"
      [] t.t = "graph" -> f.k = "node" /\ (f.s.v # "" /\ f.used)
      [] t.t = "val" -> f.k \in Values \/ (f.k = "rev" /\ t.x.k # "l")
      [] t.t = "list" -> f.k \in Values
      [] t.t = "null" -> f.k = "prop"
      [] t.t = "end" -> Len(m.stack) > 1
Step(m, t) ==
    LET f == Top(m) IN
    CASE t.t = "node" ->
           IF t.x.k = "a"
           THEN LET x == Fresh(m.n) IN Push(Attach([m EXCEPT !.n = @ + 1], x), Frame("node", x, Default, f.g))
           ELSE Push(Attach(m, t.x), [Frame("node", t.x, Default, f.g) EXCEPT !.used = TRUE])
      [] t.t = "type" -> Mark(Put(m, f.s, RdfType, t.x, f.g))
      [] t.t = "prop" -> Push(m, Frame("prop", f.s, t.x, f.g))
      [] t.t = "rev" -> Push(m, Frame("rev", f.s, t.x, f.g))
      [] t.t = "graph" -> Push(m, Frame("graph", Default, Default, f.s))
      [] t.t = "val" -> Attach(m, t.x)
      [] t.t = "null" -> m
      [] t.t = "list" ->
           IF f.k = "list"      \* a list in a list: an item whose value is a list
           THEN LET c == Fresh(m.n) IN
                Push(Set([Put(m, f.s, f.p, c, f.g) EXCEPT !.n = @ + 1], [f EXCEPT !.s = c, !.p = RdfRest]), Frame("list", c, RdfFirst, f.g))
           ELSE Push(Mark(m), Frame("list", f.s, f.p, f.g))
      [] t.t = "end" -> IF f.k = "list" THEN Pop(Put(m, f.s, f.p, RdfNil, f.g))
                        ELSE IF f.k \in {"prop", "rev"} /\ f.used THEN Mark(Pop(m))
                        ELSE Pop(m)
Complete(m) == Len(m.stack) = 1
RECURSIVE Run(_, _)
Run(m, ts) == IF ts = <<>> THEN m ELSE Run(Step(m, Head(ts)), Tail(ts))
RECURSIVE RunSafe(_, _)
RunSafe(m, ts) == IF ts = <<>> THEN [ok |-> Complete(m), m |-> m]
                  ELSE IF ~May(m, Head(ts)) THEN [ok |-> FALSE, m |-> m]
                  ELSE RunSafe(Step(m, Head(ts)), Tail(ts))
=============================================================================
