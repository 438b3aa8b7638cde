---------------------------- MODULE SparqlClient ----------------------------
(* A client of a SPARQL 1.1 endpoint and graph store: the one request that    *)
(* each call sends, and how a response is returned or reported.               *)
(*                                                                            *)
(* cfg:  postq, direct, param (BOOLEAN), verify ("unset" or a value),         *)
(*       qurl and durl (code points of the query and dataset URLs)            *)
(* call: op ("query", "update", "get", "put", "post", "postnew", "delete",    *)
(*       "patch"), text, output ("json", "xml"), dg and ng (sequences of      *)
(*       IRIs), graph (an IRI).                                               *)
(* Nothing else enters: in particular no call depends on an earlier one.      *)
EXTENDS Wire
Q == Codes("query")
U == Codes("update")
DG == Codes("default-graph-uri")
NG == Codes("named-graph-uri")
UDG == Codes("using-graph-uri")
UNG == Codes("using-named-graph-uri")
GR == Codes("graph")
FormType == Codes("application/x-www-form-urlencoded")
QueryType == Codes("application/sparql-query")
UpdateType == Codes("application/sparql-update")
JsonResults == Codes("application/sparql-results+json")
XmlResults == Codes("application/sparql-results+xml")
RdfXml == Codes("application/rdf+xml")
TurtleType == Codes("text/turtle")
PlainType == Codes("text/plain")
NTriplesType == Codes("application/n-triples")
N3Type == Codes("text/rdf+n3")
ChangesetType == Codes("application/vnd.talis.changeset+xml")
AnyType == Codes("*/*")

Repeat(n, vs) == [i \in 1..Len(vs) |-> <<n, Bytes(vs[i])>>]
Protocol(op) == op \in {"query", "update"}
GraphParams(call) == IF call.op = "query" THEN Repeat(DG, call.dg) \o Repeat(NG, call.ng)
                     ELSE Repeat(UDG, call.dg) \o Repeat(UNG, call.ng)
Text(call) == <<IF call.op = "query" THEN Q ELSE U, Bytes(call.text)>>

\* how a query or update travels
Style(cfg, call) == IF cfg.direct THEN "direct" ELSE IF call.op = "update" \/ cfg.postq THEN "form" ELSE "url"
\* parameters added to the URL
UrlParams(cfg, call) ==
    IF Protocol(call.op)
    THEN CASE Style(cfg, call) = "direct" -> GraphParams(call)
           [] Style(cfg, call) = "form" -> <<>>
           [] Style(cfg, call) = "url" -> GraphParams(call) \o <<Text(call)>>
    ELSE IF cfg.param /\ call.op # "postnew" THEN <<<<GR, Bytes(call.graph)>>>> ELSE <<>>
FormParams(cfg, call) == GraphParams(call) \o <<Text(call)>>
Method(cfg, call) ==
    CASE Protocol(call.op) -> IF Style(cfg, call) = "url" THEN "GET" ELSE "POST"
      [] call.op = "get" -> "GET"
      [] call.op = "put" -> "PUT"
      [] call.op \in {"post", "postnew"} -> "POST"
      [] call.op = "delete" -> "DELETE"
      [] call.op = "patch" -> "PATCH"
\* "none", "form", "direct" (the text), "graph" or "changeset"
BodyKind(cfg, call) ==
    CASE Protocol(call.op) -> IF Style(cfg, call) = "url" THEN "none" ELSE Style(cfg, call)
      [] call.op \in {"put", "post", "postnew"} -> "graph"
      [] call.op = "patch" -> "changeset"
      [] OTHER -> "none"
ContentTypes(cfg, call) ==
    CASE BodyKind(cfg, call) = "none" -> {<<>>}
      [] BodyKind(cfg, call) = "form" -> {FormType}
      [] BodyKind(cfg, call) = "direct" -> IF call.op = "query" THEN {QueryType} ELSE {UpdateType}
      [] BodyKind(cfg, call) = "graph" -> {PlainType, NTriplesType}
      [] BodyKind(cfg, call) = "changeset" -> {ChangesetType}
Accepts(call) ==
    CASE call.op = "query" -> IF call.output = "xml" THEN {{RdfXml, XmlResults}} ELSE {{JsonResults, TurtleType}}
      [] call.op = "get" -> {{PlainType, RdfXml, TurtleType, N3Type}}
      [] OTHER -> {{}, {AnyType}}
Base(cfg, call) == IF Protocol(call.op) THEN cfg.qurl ELSE cfg.durl
Verify(cfg) == IF cfg.verify = "unset" THEN "true" ELSE cfg.verify

(* -- a concrete request r: method, url, body (bytes), ctype, accept, verify, -- *)
(* -- same (whether a graph or changeset body reads back as the one given)    -- *)
InPath(cfg, call) == ~Protocol(call.op) /\ ~cfg.param /\ call.op # "postnew"
UrlRight(cfg, call, r) ==
    LET b == Base(cfg, call)
        path == Before(r.url, 63)
        dir == SubSeq(Before(b, 63), 1, Last(Before(b, 63), 47)) IN
    /\ SameParams(Pairs(After(r.url, 63)), Pairs(After(b, 63)) \o UrlParams(cfg, call))
    /\ IF InPath(cfg, call)
       THEN /\ Len(path) > Len(dir) /\ SubSeq(path, 1, Len(dir)) = dir
            /\ LET seg == SubSeq(path, Len(dir) + 1, Len(path)) IN
               /\ Find(seg, 47) = 0 /\ Decode(seg) = Bytes(call.graph)
       ELSE path = Before(b, 63)
    /\ Find(r.url, 35) = 0
BodyRight(cfg, call, r) ==
    CASE BodyKind(cfg, call) = "none" -> r.body = <<>>
      [] BodyKind(cfg, call) = "form" -> SameParams(Pairs(r.body), FormParams(cfg, call))
      [] BodyKind(cfg, call) = "direct" -> r.body = Bytes(call.text)
      [] OTHER -> r.same
RequestClauses(cfg, call, r) ==
    << <<"method", r.method = Method(cfg, call)>>,
       <<"url", UrlRight(cfg, call, r)>>,
       <<"body", BodyRight(cfg, call, r)>>,
       <<"content type", MediaType(r.ctype) \in ContentTypes(cfg, call)>>,
       <<"accept", Accepted(r.accept) \in Accepts(call)>>,
       <<"verify", r.verify = Verify(cfg)>> >>

(* ------------------------------- responses -------------------------------- *)
(* an answer: status (0: the connection failed), ctype, pay (what the payload *)
(* is well formed as); an outcome: kind ("true", "none", "json", "xml",       *)
(* "graph", "other", "raise"), exc, same (equal to what the payload means),   *)
(* detail (the exception tells the response).                                 *)
Form_(op, m) ==
    CASE op = "query" /\ m = JsonResults -> "json"
      [] op = "query" /\ m = XmlResults -> "xml"
      [] m = RdfXml -> "rdfxml"
      [] m = TurtleType -> "turtle"
      [] op = "get" /\ m = PlainType -> "nt"
      [] op = "get" /\ m = N3Type -> "n3"
      [] OTHER -> "unknown"
\* well formed payloads of one format that are also of another
Fits(form, pay) == pay = form \/ (form = "turtle" /\ pay = "nt") \/ (form = "n3" /\ pay \in {"nt", "turtle"})
\* payloads of one format that the parser of another may or may not take
Either == {<<"xml", "rdfxml">>, <<"rdfxml", "xml">>, <<"turtle", "n3">>}
ValueKind(form) == IF form \in {"json", "xml"} THEN form ELSE "graph"
Returned(call, ans, out) ==
    LET f == Form_(call.op, MediaType(ans.ctype)) IN
    IF f = "unknown" THEN out.kind = "raise" /\ out.exc = "UnknownSPARQLReturnTypeException"
    ELSE IF Fits(f, ans.pay) THEN out.kind = ValueKind(f) /\ out.same
    ELSE IF <<f, ans.pay>> \in Either THEN TRUE
    ELSE out.kind = "raise"
Success(op) == CASE op \in {"put", "post", "patch"} -> {200, 201, 204}
                 [] op = "delete" -> {200, 202, 204}
                 [] op = "postnew" -> {201}
                 [] op = "get" -> {200}
\* successes that a call may report either way
Open(op) == CASE op \in {"put", "post", "patch"} -> {202}
              [] op = "postnew" -> {200, 202, 204}
              [] OTHER -> {}
OutcomeRight(call, ans, out) ==
    IF ans.status = 0 THEN out.kind = "raise"
    ELSE IF Protocol(call.op)
    THEN IF ans.status = 204 THEN out.kind = "true"
         ELSE IF ans.status # 200 THEN out.kind = "raise" /\ out.exc = "SPARQLQueryException" /\ out.detail
         ELSE IF call.op = "update" THEN out.kind # "raise"
         ELSE Returned(call, ans, out)
    ELSE IF ans.status \in Open(call.op) THEN TRUE
    ELSE IF ans.status \notin Success(call.op) THEN out.kind = "raise"
    ELSE IF call.op = "get" THEN Returned(call, ans, out)
    ELSE out.kind # "raise"
=============================================================================
