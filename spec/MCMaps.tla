------------------------------- MODULE MCMaps -------------------------------
(* All histories over two profiles; every transition is emitted with the     *)
(* state after it.                                                           *)
EXTENDS Maps, TLC, Json, IOUtils, CSV
CONSTANTS Small
VARIABLES st, last
vars == <<st, last>>
V(k) == IF k = 1 THEN {"v1"} ELSE {"v1", "v2"}
Empty == [pre |-> [n \in {"x", ""} |-> "none"], term |-> [n \in {"t", "u"} |-> "none"], def |-> "none"]
Init == st = [A |-> Empty, B |-> Empty] /\ last = <<"none">>
W == {"A", "B"}
Do(w, p, a) == st' = [st EXCEPT ![w] = p] /\ last' = a
Next == \E w \in W :
          \/ \E v \in V(2) : Do(w, SetPrefix(st[w], "x", v), <<"prefix", w, "x", v>>)
          \/ \E v \in V(IF Small THEN 1 ELSE 2) : Do(w, SetPrefix(st[w], "", v), <<"prefix", w, "", v>>)
          \/ \E v \in V(2) : Do(w, SetTerm(st[w], "t", v), <<"term", w, "t", v>>)
          \/ ~Small /\ Do(w, SetTerm(st[w], "u", "v2"), <<"term", w, "u", "v2">>)
          \/ \E v \in V(IF Small THEN 1 ELSE 2) : Do(w, SetVocabulary(st[w], v), <<"vocabulary", w, v>>)
          \/ \E u \in W, o \in BOOLEAN :
               \/ Do(w, Import(st[w], st[u], o), <<"import", w, u, o>>)
               \/ Do(w, ImportPrefixes(st[w], st[u], o), <<"importPrefixes", w, u, o>>)
               \/ Do(w, ImportTerms(st[w], st[u], o), <<"importTerms", w, u, o>>)
Spec == Init /\ [][Next]_vars
View == st
\* only the profile acted on changes; nothing known is lost; importing without override replaces nothing
Names == { <<"pre", n>> : n \in {"x", ""} } \cup { <<"term", n>> : n \in {"t", "u"} }
Value(p, n) == IF n[1] = "pre" THEN p.pre[n[2]] ELSE p.term[n[2]]
Frame == [][/\ \A w \in W : last'[2] # w => st'[w] = st[w]
            /\ \A w \in W, n \in Names : Value(st[w], n) # "none" => Value(st'[w], n) # "none"
            /\ (last'[1] \in {"import", "importPrefixes", "importTerms"} => \A w \in W, n \in Names :
                   /\ (~last'[4] /\ Value(st[w], n) # "none" => Value(st'[w], n) = Value(st[w], n))
                   /\ (last'[4] /\ last'[1] = "import" /\ last'[2] = w /\ Value(st[last'[3]], n) # "none" => Value(st'[w], n) = Value(st[last'[3]], n)))]_vars
Emit == CSVWrite("%1$s", <<ToJson([f |-> st, a |-> last', t |-> st'])>>, IOEnv.OUT)
Observe(p) == [x |-> ResolvePrefix(p, "x", "n"), d |-> ResolvePrefix(p, "", "n"), z |-> ResolvePrefix(p, "zz", "n"),
               t |-> ResolveTerm(p, "t"), u |-> ResolveTerm(p, "u"), w |-> ResolveTerm(p, "w"),
               s1 |-> TermsOf(p, "v1"), s2 |-> TermsOf(p, "v2")]
EmitObs == CSVWrite("%1$s", <<ToJson([s |-> st, A |-> Observe(st.A), B |-> Observe(st.B)])>>, IOEnv.OUT)
=============================================================================
