------------------------------- MODULE Turtle -------------------------------
(* Turtle documents as sequences of tokens, read by a pushdown machine that  *)
(* carries the prefixes and base in force and the triples stated so far.     *)
(* Tokens are records [k, v, w]:                                             *)
(*   iri v (absolute), rel v (relative to the base), badiri, pn v w (prefix  *)
(*   v, local name w), ns v (a prefix with empty local name), bn v (label),  *)
(*   lit v w (value, language or datatype), dlit v w (w: the token of its    *)
(*   datatype), a, [ ] ( ) ; , .                                             *)
(*   @prefix PREFIX @base BASE, and junk.                                    *)
(* IRIs and literals are opaque values that can be concatenated; how a       *)
(* reference resolves against a base is left to the instance.                *)
(* Frames: t "top", "bpl" ([...]) or "coll"; s, p subject and predicate in   *)
(* force; e what is expected; h, c head and last cell of a collection.       *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANT Resolve(_, _)

\* the terms of the RDF vocabulary, by local name
Rdf(x) == <<"r", x>>
Nil == Rdf("nil")
None == <<"none", "">>
Frame(t, e) == [t |-> t, e |-> e, s |-> None, p |-> None, h |-> None, c |-> None]
\* pre: <<prefix, IRI>> pairs, latest first
Start(base) == [ok |-> TRUE, stk |-> <<Frame("top", "subject")>>, pre |-> <<>>, base |-> base,
                n |-> 0, out |-> <<>>, dir |-> "", ns |-> ""]

Bad(s) == [s EXCEPT !.ok = FALSE]
Top(s) == s.stk[Len(s.stk)]
SetTop(s, f) == [s EXCEPT !.stk[Len(s.stk)] = f]
State(s, a, b, c) == [s EXCEPT !.out = Append(@, <<a, b, c>>)]
Push(s, f) == [s EXCEPT !.stk = Append(@, f)]
Pop(s) == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Fresh(s) == <<"n", s.n>>
Used(s) == [s EXCEPT !.n = @ + 1]

RECURSIVE Lookup(_, _)
Lookup(pre, v) == IF Head(pre)[1] = v THEN Head(pre)[2] ELSE Lookup(Tail(pre), v)
Declared(s, v) == \E i \in 1..Len(s.pre) : s.pre[i][1] = v

Names(t) == t.k \in {"iri", "rel", "pn", "ns"}
Known(s, t) == t.k \in {"pn", "ns"} => Declared(s, t.v)
IriOf(s, t) == CASE t.k = "iri" -> t.v [] t.k = "rel" -> Resolve(s.base, t.v)
                 [] t.k = "ns" -> Lookup(s.pre, t.v) [] OTHER -> Lookup(s.pre, t.v) \o t.w

\* a node where a term is expected; prop: written as a property list
Node(s, x, prop) ==
    LET f == Top(s) IN
    CASE f.e = "subject" /\ x[1] # "l" -> SetTop(s, [f EXCEPT !.s = x, !.e = IF prop THEN "verb or stop" ELSE "verb"])
      [] f.e = "object" -> State(SetTop(s, [f EXCEPT !.e = "next"]), f.s, f.p, x)
      [] f.e = "item" -> LET c == Fresh(s)
                             s1 == Used(s)
                             s2 == IF f.c = None THEN s1 ELSE State(s1, f.c, Rdf("rest"), c)
                             s3 == State(s2, c, Rdf("first"), x)
                         IN SetTop(s3, [f EXCEPT !.h = IF @ = None THEN c ELSE @, !.c = c])
      [] OTHER -> Bad(s)
Verb(s, x) == LET f == Top(s) IN
    IF f.e \in {"verb", "verb0", "verb or stop", "verb?"} THEN SetTop(s, [f EXCEPT !.p = x, !.e = "object"]) ELSE Bad(s)
Wants(s) == Top(s).e
IriTerm(s, v) == IF Wants(s) \in {"subject", "object", "item"} THEN Node(s, <<"i", v>>, FALSE) ELSE Verb(s, <<"i", v>>)

Step(s, t) ==
    IF ~s.ok THEN s ELSE
    LET f == Top(s) e == f.e IN
    CASE e = "prefix name" -> IF t.k = "ns" THEN [SetTop(s, [f EXCEPT !.e = "prefix iri"]) EXCEPT !.ns = t.v] ELSE Bad(s)
      [] e \in {"prefix iri", "base iri"} ->
            IF t.k \notin {"iri", "rel"} THEN Bad(s)
            ELSE LET v == IF t.k = "rel" THEN Resolve(s.base, t.v) ELSE t.v
                     s1 == IF e = "base iri" THEN [s EXCEPT !.base = v] ELSE [s EXCEPT !.pre = <<<<s.ns, v>>>> \o @]
                 IN SetTop(s1, [f EXCEPT !.e = IF s.dir = "@" THEN "dot" ELSE "subject"])
      [] e = "dot" -> IF t.k = "." THEN SetTop(s, Frame("top", "subject")) ELSE Bad(s)
      [] t.k \in {"@prefix", "PREFIX", "@base", "BASE"} ->
            IF e # "subject" THEN Bad(s)
            ELSE [SetTop(s, [f EXCEPT !.e = IF t.k \in {"@prefix", "PREFIX"} THEN "prefix name" ELSE "base iri"])
                  EXCEPT !.dir = IF t.k \in {"@prefix", "@base"} THEN "@" ELSE ""]
      [] Names(t) -> IF Known(s, t) THEN IriTerm(s, IriOf(s, t)) ELSE Bad(s)
      [] t.k = "bn" -> Node(s, <<"b", t.v>>, FALSE)
      [] t.k = "lit" -> Node(s, <<"l", t.v, t.w>>, FALSE)
      [] t.k = "dlit" -> IF Names(t.w) /\ Known(s, t.w) THEN Node(s, <<"l", t.v, <<"dt", IriOf(s, t.w)>>>>, FALSE) ELSE Bad(s)
      [] t.k = "a" -> Verb(s, Rdf("type"))
      [] t.k = "[" -> IF e \in {"subject", "object", "item"}
                      THEN Push(Used(s), [Frame("bpl", "verb0") EXCEPT !.s = Fresh(s)]) ELSE Bad(s)
      [] t.k = "]" -> IF f.t = "bpl" /\ e \in {"verb0", "next", "verb?"} THEN Node(Pop(s), f.s, e # "verb0") ELSE Bad(s)
      [] t.k = "(" -> IF e \in {"subject", "object", "item"} THEN Push(s, Frame("coll", "item")) ELSE Bad(s)
      [] t.k = ")" -> IF f.t # "coll" THEN Bad(s)
                      ELSE IF f.c = None THEN Node(Pop(s), Nil, FALSE)
                      ELSE Node(State(Pop(s), f.c, Rdf("rest"), Nil), f.h, FALSE)
      [] t.k = ";" -> IF e \in {"next", "verb?"} THEN SetTop(s, [f EXCEPT !.e = "verb?"]) ELSE Bad(s)
      [] t.k = "," -> IF e = "next" THEN SetTop(s, [f EXCEPT !.e = "object"]) ELSE Bad(s)
      [] t.k = "." -> IF f.t = "top" /\ e \in {"next", "verb?", "verb or stop"}
                      THEN SetTop(s, Frame("top", "subject")) ELSE Bad(s)
      [] OTHER -> Bad(s)

Run(base, doc) == FoldLeft(Step, Start(base), doc)
Accepts(s) == s.ok /\ Len(s.stk) = 1 /\ Top(s).e = "subject"
Meaning(s) == [ok |-> Accepts(s), out |-> IF Accepts(s) THEN s.out ELSE <<>>]
Depth(s) == Len(s.stk)

(* facts TLC checks on every reachable configuration *)
WellFormed(s) == \A i \in 1..Len(s.out) : s.out[i][1][1] \in {"i", "r", "b", "n"} /\ s.out[i][2][1] \in {"i", "r"} /\ s.out[i][3] # None
\* every list cell has exactly one first, and at most one rest
Cells(s) == \A i, j \in 1..Len(s.out) :
    (s.out[i][2] \in {Rdf("first"), Rdf("rest")} /\ s.out[i][1] = s.out[j][1] /\ s.out[i][2] = s.out[j][2]
     /\ s.out[i][1][1] = "n") => i = j
\* once a document is complete, every list cell has a rest and every anonymous node that is an object is unique to its place
Complete(s) == Accepts(s) => \A i \in 1..Len(s.out) : (s.out[i][2] = Rdf("first") /\ s.out[i][1][1] = "n") =>
                    \E j \in 1..Len(s.out) : s.out[j][1] = s.out[i][1] /\ s.out[j][2] = Rdf("rest")
Nested(s) == \A i, j \in 1..Len(s.out) : (s.out[i][3][1] = "n" /\ s.out[i][3] = s.out[j][3]) => i = j
=============================================================================
