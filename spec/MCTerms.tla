------------------------------- MODULE MCTerms -------------------------------
(* All values over a few texts that differ only in one component or share      *)
(* texts between components, and everything that can be done to each.          *)
EXTENDS Terms, TLC, Json, IOUtils, CSV
CONSTANTS Big
VARIABLES x, act, was
vars == <<x, act, was>>
Texts == {"a", "b", ""}
Lits == { Lit(v, g, "-") : v \in Texts, g \in {"-", "a", "b"} } \cup { Lit(v, "-", d) : v \in Texts, d \in {"-", "a", "b"} }
\* a language and a datatype at once are not asked for
Legal(y) == y.s.k # "l" \/ y.s.g = "-" \/ y.s.d = "-"
Iris == { Iri("a"), Iri("b"), Iri("c") }
Blanks == { Blank("1"), Blank("2") }
Subjects == IF Big THEN Iris \cup Blanks ELSE {Iri("a"), Iri("b"), Blank("1")}
Predicates == {Iri("a"), Iri("b")}
Objects == IF Big THEN Iris \cup Blanks \cup Lits ELSE {Iri("a"), Blank("1"), Blank("2"), Lit("a", "-", "-"), Lit("a", "a", "-"), Lit("a", "-", "a")}
Names == {NoTerm, Iri("a"), Blank("1")}
Triples == { Triple(s, p, o) : s \in Subjects, p \in Predicates, o \in Objects }
Quads == { Quad(s, p, o, g) : s \in Subjects, p \in Predicates, o \in Objects, g \in Names }
Universe == { OfTerm(t) : t \in Lits \cup Iris \cup Blanks } \cup Triples \cup Quads
Act(op, fs, g) == [op |-> op, fs |-> fs, g |-> g]
Nothing == Act("none", <<>>, NoTerm)
Init == x \in Universe /\ act = Nothing
Do(op, fs, g, y) == Legal(y) /\ act' = Act(op, fs, g) /\ x' = y
Given(f) == CASE f = "subject" -> Subjects [] f = "predicate" -> Predicates [] f = "object" -> Objects [] f = "graph" -> Names
              [] f = "value" -> {Iri(v) : v \in Texts} [] f \in {"language", "datatype"} -> {Iri("-"), Iri("a"), Iri("b")}
Next ==
    /\ act.op = "none"
    /\ \/ \E op \in {"copy", "deepcopy", "pickle", "make", "asdict"} : (op \in {"make", "asdict"} => Fields(x) # {}) /\ Do(op, <<>>, NoTerm, x)
       \/ \E f \in Fields(x) : \E t \in Given(f) : Do("replace", <<<<f, t>>>>, NoTerm, Replace(x, <<<<f, t>>>>))
       \/ \E f1, f2 \in Fields(x) : f1 # f2 /\ \E t \in { CHOOSE u \in Given(f1) : TRUE } : \E u \in { CHOOSE u \in Given(f2) : TRUE } :
             Do("replace", <<<<f1, t>>, <<f2, u>>>>, NoTerm, Replace(x, <<<<f1, t>>, <<f2, u>>>>))
       \/ \E f \in Fields(x) : Do("replace", <<<<"nothing", NoTerm>>, <<f, CHOOSE u \in Given(f) : TRUE>>>>, NoTerm, Error)
       \/ Fields(x) # {} /\ Do("replace", <<>>, NoTerm, x)
       \/ \E f \in {"subject", "predicate", "object", "graph", "value", "language", "datatype"} : \E op \in {"set", "del"} :
             f \in Fields(x) /\ Do(op, <<<<f, Iri("a")>>>>, NoTerm, x)
       \/ x.k = "quad" /\ Do("triple", <<>>, NoTerm, AsTriple(x))
       \/ x.k = "triple" /\ \E g \in Names : Do("quad", <<>>, g, AsQuad(g, x))
\* converting back and forth, and replacing back, gives the value again
Inverse == /\ x.k = "quad" => AsQuad(x.g, AsTriple(x)) = x
           /\ x.k = "triple" => \A g \in Names : AsTriple(AsQuad(g, x)) = x
           /\ \A f \in Fields(x) : \A t \in Given(f) :
                LET y == Replace(x, <<<<f, t>>>>) IN
                x \in Universe => \E u \in Given(f) : Replace(y, <<<<f, u>>>>) = x
\* the value acted on is kept by the step
SpecE == Init /\ was = x /\ [][Next /\ was' = x]_<<x, act, was>>
EmitE == CSVWrite("%1$s", <<ToJson([from |-> was, act |-> act, to |-> x])>>, IOEnv.OUT)
=============================================================================
