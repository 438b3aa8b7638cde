------------------------------ MODULE MCSystem ------------------------------
(* All histories over a few statements, two or three graphs and one or two datasets. *)
EXTENDS System, Json, IOUtils, CSV
CONSTANTS Subj, Obj, MaxG, NG, ND, NN
VARIABLES h, last
Tri == { <<s, 1, o>> : s \in 1..Subj, o \in 1..Obj }
Gs == 1..Len(h.g)
Ds == 1..Len(h.d)
Ns == 1..NN
Acts == { <<"gadd", g, t>> : g \in Gs, t \in Tri } \cup { <<"gdel", g, t>> : g \in Gs, t \in Tri }
   \cup { <<"gwipe", g, <<s, Free, Free>>>> : g \in Gs, s \in 0..1 }
   \cup { <<op, a, b>> : op \in {"gall", "conv"}, a \in Gs, b \in Gs }
   \cup (IF Len(h.g) < MaxG THEN { <<"gmerge", a, b>> : a \in Gs, b \in Gs } \cup { <<"gcopy", a>> : a \in Gs } ELSE {})
   \cup { <<op, d, <<t[1], t[2], t[3], n>>>> : op \in {"dadd", "ddel"}, d \in Ds, t \in Tri, n \in Ns }
   \cup { <<"dwipe", d, <<s, Free, Free, n>>>> : d \in Ds, s \in 0..1, n \in 0..NN }
   \cup { <<"dput", d, n, g>> : d \in Ds, n \in Ns, g \in Gs } \cup { <<"ddrop", d, n>> : d \in Ds, n \in Ns }
   \cup { <<op, a, b>> : op \in {"dall", "dconv"}, a \in Ds, b \in Ds }
   \cup { <<"rset", g, s, 1, os>> : g \in Gs, s \in 1..Subj, os \in {<<>>} \cup { <<o>> : o \in 1..Obj } }
   \cup { <<"rdel", g, s, 1>> : g \in Gs, s \in 1..Subj } \cup { <<"rerase", g, s>> : g \in Gs, s \in 1..Subj }
   \cup { <<"rcopy", g, s, t>> : g \in Gs, s \in 1..Subj, t \in 1..Subj } \cup { <<"rnew", g, s>> : g \in Gs, s \in 1..Subj }
   \cup {<<"look">>}
Init == h = [g |-> [i \in 1..NG |-> {}], d |-> [i \in 1..ND |-> {}], f |-> <<>>, x |-> <<>>] /\ last = <<"none">>
Next == \E a \in Acts : /\ Legal(h, a) /\ Len(Do(h, a)[2].g) <= MaxG
                        /\ h' = Do(h, a)[2] /\ last' = a
Spec == Init /\ [][Next]_<<h, last>>
View == h
Typed == /\ \A i \in Ds : \A e, f \in h.d[i] : (e[1] = f[1] => e = f) /\ (e[2] = f[2] => e = f) /\ e[2] \in Gs
         /\ \A i \in Gs : h.g[i] \subseteq Tri
\* only the graphs of an operation change, and only the datasets that hold one of those
Frame == [][/\ \A i \in Gs : h.g[i] # h'.g[i] => i \in Own(h, last')
            /\ \A i \in Ds : Quads(h, h.d[i]) # Quads(h', h'.d[i]) =>
                   \/ last'[1] \in {"dadd", "ddel", "dwipe", "dput", "ddrop", "dall", "dconv"} /\ last'[2] = i
                   \/ Held(h.d[i]) \cap Own(h, last') # {}
            /\ (~Do(h, last')[1] => h' = h)]_<<h, last>>
\* what was asked for holds afterwards
Done == [][CASE last'[1] = "gadd" -> last'[3] \in h'.g[last'[2]]
             [] last'[1] = "gdel" -> last'[3] \notin h'.g[last'[2]]
             [] last'[1] = "dadd" -> last'[3] \in Quads(h', h'.d[last'[2]])
             [] last'[1] = "ddel" -> last'[3] \notin Quads(h', h'.d[last'[2]])
             [] last'[1] = "rset" -> Vals(h', last'[2], last'[3], 1) = ToSet(last'[5])
             [] last'[1] = "rerase" -> Of(h', last'[2], last'[3]) = {}
             [] last'[1] \in {"dall", "dconv"} -> Quads(h, h.d[last'[3]]) \subseteq Quads(h', h'.d[last'[2]])
             [] OTHER -> TRUE]_<<h, last>>
Emit == CSVWrite("%1$s", <<ToJson([f |-> h, a |-> last', t |-> h', ok |-> Do(h, last')[1]])>>, IOEnv.OUT)
=============================================================================
