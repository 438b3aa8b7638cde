---------------------------- MODULE ResourceKeys ----------------------------
(* What the keys of a resource denote and what assigning by key replaces,    *)
(* written from the documentation of rdf.Resource.                           *)
(* A graph is a set of <<subject, predicate, object>>; terms are records     *)
(* [k, v, g, d]: "r" a reference to resource v; "l" a literal with text v,   *)
(* language g = <<primary, rest>> or <<>>, and datatype d or "".             *)
(* A key is [p, f, x]: predicate, form of filter ("plain" when there is      *)
(* none, "all" for None, "lang", "dt", "class", "empty") and filter value.   *)
EXTENDS Naturals, Sequences, FiniteSets

\* registered classes that a resource of a type is an instance of (B derives from A)
Supers(t) == CASE t = "TA" -> {"A"} [] t = "TB" -> {"A", "B"} [] t = "TC" -> {"C"} [] OTHER -> {}
Types(G, n) == { t[3].v : t \in { u \in G : u[1] = n /\ u[2] = "type" } }
InstanceOf(G, n, c) == c = "Resource" \/ \E t \in Types(G, n) : c \in Supers(t)

LangMatch(a, b) == a # <<>> /\ b # <<>> /\ a[1] = b[1] /\ (a[2] = "" \/ b[2] = "" \/ a[2] = b[2])
Objs(G, s, p) == { t[3] : t \in { u \in G : u[1] = s /\ u[2] = p } }
Refs(O) == { o \in O : o.k = "r" }
Lits(O) == { o \in O : o.k = "l" }
ByLang(O, l) == { o \in Lits(O) : LangMatch(o.g, l) }
Typed(O) == { o \in Lits(O) : o.d # "" }
ByType(O, d) == { o \in Lits(O) : o.d = d }
Plain(O) == { o \in Lits(O) : o.d = "" /\ o.g = <<>> }
ByClass(G, O, c) == { o \in Refs(O) : InstanceOf(G, o.v, c) }

Spoken(O) == { o \in Lits(O) : o.g # <<>> }
\* the objects a selector gives; x: its argument, or "none"
Selected(G, s, p, sel, x) ==
    LET O == Objs(G, s, p) IN
    CASE sel = "objects" -> O
      [] sel = "bare" -> Plain(O)
      [] sel = "lang any" -> Spoken(O)
      [] sel = "lang" -> IF x = <<>> THEN Plain(O) ELSE ByLang(O, x)
      [] sel = "dt any" -> Typed(O)
      [] sel = "dt" -> IF x = "" THEN Plain(O) ELSE ByType(O, x)
      [] sel = "class any" -> Refs(O)
      [] sel = "class" -> ByClass(G, O, x)

FirstOf(a, b) == IF a # {} THEN a ELSE b
\* the objects a key denotes; sc: the predicate is scalar; own: the language of the resource
Denotes(G, s, k, sc, own) ==
    LET O == Objs(G, s, k.p) IN
    CASE k.f = "plain" /\ ~sc -> O
      [] k.f = "plain" -> FirstOf(ByLang(O, own), FirstOf(Refs(O), FirstOf(Typed(O), Plain(O))))
      [] k.f = "all" -> O
      [] k.f = "lang" -> ByLang(O, k.x) \cup (IF sc THEN {} ELSE Refs(O))
      [] k.f = "dt" -> ByType(O, k.x) \cup (IF sc THEN {} ELSE Refs(O))
      [] k.f = "class" -> ByClass(G, O, k.x)
      [] k.f = "empty" -> Plain(O)
\* reading gives a sequence of them, or one of them
Single(k, sc) == sc /\ k.f # "all"

(* Values: items [f, o, c]: "term", a term; "str", a text to be made a       *)
(* literal; "res", a Python resource of classes c for term o.                *)
Item(i, k, sc, own) ==
    IF i.f # "str" THEN i.o
    ELSE LET l == CASE k.f = "lang" -> k.x [] k.f = "plain" /\ sc -> own [] OTHER -> <<>>
         IN [k |-> "l", v |-> i.o.v, g |-> l, d |-> IF k.f = "dt" THEN k.x ELSE ""]
Fits(G, i, k, sc, own) ==
    LET o == Item(i, k, sc, own) IN
    CASE k.f \in {"plain", "all"} -> TRUE
      [] k.f = "class" -> o.k = "r" /\ (IF i.f = "res" THEN \E n \in 1..Len(i.c) : i.c[n] = k.x ELSE InstanceOf(G, o.v, k.x))
      [] o.k = "r" -> TRUE
      [] k.f = "lang" -> LangMatch(o.g, k.x)
      [] k.f = "dt" -> o.d = k.x
      [] k.f = "empty" -> o.g = <<>> /\ o.d = ""
\* coll: the value is a collection of items
Fit(G, its, coll, k, sc, own) == (\A n \in 1..Len(its) : Fits(G, its[n], k, sc, own)) /\ ~(coll /\ sc)

Replaced(G, s, its, coll, k, sc, own) ==
    LET O == Objs(G, s, k.p) IN
    CASE k.f = "plain" -> IF sc /\ ~coll /\ Item(its[1], k, sc, own).k = "l" /\ Item(its[1], k, sc, own).g # <<>>
                          THEN ByLang(O, Item(its[1], k, sc, own).g) \cup Typed(O) \cup Refs(O) \cup Plain(O)
                          ELSE O
      [] k.f = "lang" /\ sc -> ByLang(O, k.x) \cup Typed(O) \cup Refs(O)
      [] sc -> O
      [] k.f = "all" -> O
      [] k.f = "lang" -> ByLang(O, k.x) \cup Refs(O)
      [] k.f = "dt" -> ByType(O, k.x) \cup Refs(O)
      [] k.f = "class" -> ByClass(G, O, k.x)
      [] k.f = "empty" -> Plain(O) \cup Refs(O)
With(s, p, O) == { <<s, p, o>> : o \in O }
Assigned(G, s, its, coll, k, sc, own) ==
    (G \ With(s, k.p, Replaced(G, s, its, coll, k, sc, own)))
       \cup With(s, k.p, { Item(its[n], k, sc, own) : n \in 1..Len(its) })
Deleted(G, s, k, sc, own) == G \ With(s, k.p, Denotes(G, s, k, sc, own))
=============================================================================
