---- MODULE TraceParserCalls ----
(* What really came of scenarios, against ParserCalls.  A record has the     *)
(* calls, whether each raised, and for every statement found in a sink       *)
(* [sink, id, nodes]: id = <<call, line, statement>>.                        *)
EXTENDS Judge
VARIABLES tid, l
P == INSTANCE ParserCalls WITH Scenarios <- <<>>, Labels <- {}, Constants <- {}, sc <- 0, calls <- 0, pc <- 0, tls <- 0, buf <- 0,
     sinks <- 0, fresh <- 0, hist <- 0
Clauses(e) ==
    LET ids(k) == { e.got[g].id : g \in { h \in 1..Len(e.got) : e.got[h].sink = k } }
        known == { g \in 1..Len(e.got) : e.got[g].id[1] > 0 }
        occ == UNION { { <<g, i>> : i \in 1..Len(e.got[g].nodes) } : g \in known }
        o(x) == <<e.got[x[1]].id[1], e.got[x[1]].id[2], e.got[x[1]].id[3], x[2]>>
        n(x) == e.got[x[1]].nodes[x[2]]
    IN << <<"rejected", \A c \in 1..Len(e.calls) : e.raised[c] = P!Rejected(e.calls[c])>>,
          <<"effect", /\ \A k \in Range(e.sinks) : ids(k) = P!Effect(e.calls, k)
                      /\ Len(e.got) = Cardinality({ <<e.got[g].sink, e.got[g].id>> : g \in 1..Len(e.got) })>>,
          <<"before", e.before>>,
          \* nodes and what the text says they are go together one to one
          <<"scope", LET both == { <<n(x), P!Key(e.calls, o(x))>> : x \in occ }
                     IN Cardinality({ b[1] : b \in both }) = Cardinality(both) /\ Cardinality({ b[2] : b \in both }) = Cardinality(both)>> >>
Init == tid \in 1..Len(Log) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tid /\ Verdict(tid, 1, Clauses(Log[tid].ev[1]))
Spec == Init /\ [][Next]_<<tid, l>>
====
