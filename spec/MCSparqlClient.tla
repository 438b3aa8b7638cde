--------------------------- MODULE MCSparqlClient ---------------------------
(* All pairs of consecutive calls on a client in every configuration, and all *)
(* answers to every call.  Checked here: what a request says can be read back  *)
(* from its concrete syntax and from no other call's request, and no answer    *)
(* leaves both returning and raising open.                                     *)
EXTENDS SparqlClient, TLC, Json, IOUtils, CSV
CONSTANTS WithPairs
VARIABLES cfg, prev, call, ans
vars == <<cfg, prev, call, ans>>
Texts == {<<97>>, <<38, 61, 37, 50, 53>>}
G1 == <<117, 58, 103>>
G2 == <<117, 58, 38, 43, 233>>
Url1 == <<117, 58, 47, 47, 104, 47, 113>>
Url2 == Url1 \o <<63, 107, 61, 49>>
None == [op |-> "none", text |-> <<>>, output |-> "json", dg |-> <<>>, ng |-> <<>>, graph |-> <<>>]
Calls == [op : {"query"}, text : Texts, output : {"json", "xml"}, dg : {<<>>, <<G1>>, <<G1, G2>>}, ng : {<<>>, <<G2>>}, graph : {<<>>}]
    \cup [op : {"update"}, text : Texts, output : {"json"}, dg : {<<>>, <<G1>>, <<G1, G2>>}, ng : {<<>>, <<G2>>}, graph : {<<>>}]
    \cup [op : {"get", "put", "post", "delete", "patch"}, text : {<<>>}, output : {"json"}, dg : {<<>>}, ng : {<<>>}, graph : {G1, G2}]
    \cup [op : {"postnew"}, text : {<<>>}, output : {"json"}, dg : {<<>>}, ng : {<<>>}, graph : {<<>>}]
Cfgs == [postq : BOOLEAN, direct : BOOLEAN, param : BOOLEAN, verify : {"unset"}, qurl : {Url1, Url2}, durl : {Url1 \o <<47>>}]
NoAns == [status |-> -1, ctype |-> "", pay |-> ""]
Types == {"", "application/sparql-results+json", "application/sparql-results+xml", "application/rdf+xml", "text/turtle",
          "text/plain", "text/rdf+n3", "text/html", "application/json", "application/sparql-results+jsonx"}
Pays == {"json", "xml", "rdfxml", "turtle", "nt", "n3", "bad"}
Statuses == {0, 200, 201, 202, 203, 204, 206, 301, 304, 400, 401, 404, 406, 409, 500, 503}
OkAns(op) == IF op = "postnew" THEN [status |-> 201, ctype |-> "text/plain", pay |-> "nt"]
             ELSE IF op = "query" THEN [status |-> 200, ctype |-> "application/sparql-results+json", pay |-> "json"]
             ELSE [status |-> 200, ctype |-> "text/turtle", pay |-> "turtle"]
\* every status with some types, and every type and payload with success
Answers(op) == [status : Statuses, ctype : {"", "application/sparql-results+json", "text/turtle"}, pay : {"json", "turtle", "bad"}]
       \cup (IF op \in {"query", "get"} THEN [status : {200}, ctype : Types, pay : Pays] ELSE {})
Init == cfg \in { c \in Cfgs : c.param = (c.qurl = Url1) } /\ prev = None /\ call = None /\ ans = NoAns
\* the client calls, the server answers
Do(c, a) == prev' = call /\ call' = c /\ ans' = a /\ UNCHANGED cfg
Next == IF WithPairs
        THEN \E c \in Calls : \E a \in {OkAns(c.op), [OkAns(c.op) EXCEPT !.status = 500]} : Do(c, a)
        ELSE /\ call.op = "none" /\ ~cfg.postq /\ ~cfg.direct /\ cfg.qurl = Url1
             /\ \E c \in { d \in Calls : d.text \in {<<>>, <<97>>} /\ d.dg = <<>> /\ d.ng = <<>> /\ d.graph \in {<<>>, G1} } :
                   \E a \in Answers(c.op) : Do(c, a)
Spec == Init /\ [][Next]_vars

(* ---- a request written down ---- *)
RECURSIVE Join(_)
Join(S) == IF S = {} THEN <<>> ELSE LET t == CHOOSE t \in S : TRUE IN t \o (IF S = {t} THEN <<>> ELSE <<44, 32>> \o Join(S \ {t}))
Pick(S) == CHOOSE x \in S : TRUE
Write(c) ==
    LET b == Base(cfg, c)
        ps == Pairs(After(b, 63)) \o UrlParams(cfg, c)
        dir == SubSeq(b, 1, Last(b, 47)) IN
    [method |-> Method(cfg, c), verify |-> Verify(cfg),
     url |-> (IF InPath(cfg, c) THEN dir \o Encode(Bytes(c.graph)) ELSE Before(b, 63)) \o (IF ps = <<>> THEN <<>> ELSE <<63>> \o Form(ps)),
     body |-> CASE BodyKind(cfg, c) = "form" -> Form(FormParams(cfg, c)) [] BodyKind(cfg, c) = "direct" -> Bytes(c.text) [] OTHER -> <<>>,
     ctype |-> Pick(ContentTypes(cfg, c)), accept |-> Join(Pick(Accepts(c))), same |-> TRUE]
Accepted_(c, r) == LET q == RequestClauses(cfg, c, r) IN \A k \in 1..Len(q) : q[k][2]
Readable == call.op # "none" => Accepted_(call, Write(call))
Distinct == call.op # "none" /\ prev.op # "none" /\ call # prev => ~Accepted_(call, Write(prev))
\* the text is in exactly one place
Once == Protocol(call.op) =>
          LET r == Write(call) IN
          Len(Values(Pairs(After(r.url, 63)), Text(call)[1])) + (CASE BodyKind(cfg, call) = "form" -> Len(Values(Pairs(r.body), Text(call)[1]))
              [] BodyKind(cfg, call) = "direct" -> 1 [] OTHER -> 0) = 1
(* ---- answers ---- *)
Outs == [kind : {"true", "none", "json", "xml", "graph"}, exc : {""}, same : BOOLEAN, detail : {FALSE}]
   \cup [kind : {"raise"}, exc : {"SPARQLQueryException", "UnknownSPARQLReturnTypeException", "ValueError"}, same : {FALSE}, detail : BOOLEAN]
AnsC == [ans EXCEPT !.ctype = Codes(@)]
Allowed == { o \in Outs : OutcomeRight(call, AnsC, o) }
NeverMistaken == ~WithPairs /\ call.op # "none" =>
    /\ Allowed # {}
    /\ ans.status \in {0, 203, 206, 301, 304, 400, 401, 404, 406, 409, 500, 503} => \A o \in Allowed : o.kind = "raise"
    /\ ~((\E o \in Allowed : o.kind = "raise") /\ (\E o \in Allowed : o.kind # "raise")) \/ ans.status \in Open(call.op)
         \/ <<Form_(call.op, MediaType(AnsC.ctype)), ans.pay>> \in Either
    /\ call.op = "query" /\ ans.status = 200 /\ <<Form_(call.op, MediaType(AnsC.ctype)), ans.pay>> \notin Either => \A o \in Allowed : o.kind \notin {"true", "none"} /\ (o.kind # "raise" => o.same)
Emit == CSVWrite("%1$s", <<ToJson([cfg |-> cfg, from |-> prev, call |-> call, ans |-> ans])>>, IOEnv.OUT)
=============================================================================
