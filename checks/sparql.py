"""C22-C25: the SPARQL client and changesets against spec/SparqlClient.tla and spec/Changeset.tla."""
import collections, datetime, io, json, os, re, sys, urllib.parse, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from rdfio import codes, from_spec_all, iso
import logging
import rdflib
import requests
import requests.adapters
import urllib3
from lxml import etree
from urllib3.response import HTTPResponse
import pymantic.sparql as ps

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
for v in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
    os.environ.pop(v, None)
os.environ["NETRC"] = "/nonexistent"

XSD = "http://www.w3.org/2001/XMLSchema#"


# ---------------------------------------------------------------- the server
class Server:
    """Stands in for the network below requests; keeps every request and gives the answer planned."""
    current = None

    def __init__(self):
        self.seen, self.status, self.headers, self.content, self.meanwhile = [], 500, {}, b"", None

    def send(self, request, verify):
        body = request.body
        if body is None: body = b""
        elif isinstance(body, str): body = body.encode("utf-8")
        elif not isinstance(body, (bytes, bytearray)): body = body.read() if hasattr(body, "read") else b"".join(body)
        if isinstance(body, str): body = body.encode("utf-8")
        self.seen.append((request.method, request.url, {str(k).lower(): v if isinstance(v, str) else v.decode("latin-1") for k, v in request.headers.items()},
                          bytes(body), verify))
        if self.meanwhile is not None:
            f, self.meanwhile = self.meanwhile, None
            f()
        if self.status == 0:
            raise requests.ConnectionError("connection refused")
        return HTTPResponse(body=io.BytesIO(self.content), headers=self.headers, status=self.status, preload_content=False)


def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    return self.build_response(request, Server.current.send(request, verify))


requests.adapters.HTTPAdapter.send = send


# ---------------------------------------------------------------- payloads
def proj(t, base=None):
    if isinstance(t, rdflib.BNode): return ("b", str(t))
    if isinstance(t, rdflib.Literal): return ("l", str(t), (t.language or "").lower(), str(t.datatype or ""))
    return ("i", str(t))


def triples(g):
    return [tuple(proj(x) for x in t) for t in g.triples((None, None, None))]


WORDS = ["", "a", "x y", "caf\u00e9", "\u65e5\u672c", "\U0001f600", "line\nbreak", "tab\t", 'quo"te', "back\\slash", "100%", "a&b=c", "+", "<x>", "\r", "'", "a\u2028b", "\u0085", "\u2029 ", "\ufeff", "\u00a0", "\u0301"]


def word(r):
    return "".join(r.choice(WORDS) for _ in range(r.randrange(1, 4)))


def graph(r, n=None):
    g = rdflib.Graph()
    bs = [rdflib.BNode() for _ in range(3)]
    es = [rdflib.URIRef("http://g.example/%s" % x) for x in ("a", "b#c", "d?e=f", "\u00e9", "100%25")]
    ps_ = [rdflib.URIRef("http://g.example/ns#%s" % x) for x in "pqr"]
    for _ in range(r.randrange(0, 9) if n is None else n):
        o = r.choice([r.choice(bs), r.choice(es), rdflib.Literal(word(r)), rdflib.Literal(word(r), lang=r.choice(["en", "fr-ca"])),
                      rdflib.Literal(r.choice(["1", "20"]), datatype=rdflib.URIRef(XSD + "integer")), rdflib.Literal("x", datatype=es[0])])
        g.add((r.choice(bs + es), r.choice(ps_), o))
    return g


def json_value(r):
    def term():
        return r.choice([{"type": "uri", "value": "http://g.example/" + word(r)}, {"type": "literal", "value": word(r)},
                         {"type": "literal", "value": word(r), "xml:lang": "en"}, {"type": "bnode", "value": "b0"}])
    if r.random() < .3: return {"head": {}, "boolean": r.random() < .5}
    vs = ["x", "y", "\u00e9"]
    return {"head": {"vars": vs}, "results": {"bindings": [{v: term() for v in vs if r.random() < .8} for _ in range(r.randrange(4))]}}


def payload(r, kind, token, base=None):
    """(bytes, what they mean); base: what relative references are relative to, if there may be some"""
    if kind == "json":
        v = json_value(r)
        v["link"] = token
        return json.dumps(v, ensure_ascii=r.random() < .5).encode("utf-8"), v
    if kind == "xml":
        t = "<sparql xmlns='http://www.w3.org/2005/sparql-results#'><head><variable name='x'/></head><results><result><binding name='x'><literal>%s \u00e9</literal></binding></result></results></sparql>" % token
        enc = r.choice(["utf-8", "utf-8", "iso-8859-1"])
        return ("<?xml version='1.0' encoding='%s'?>" % enc + t).encode(enc), t
    if kind == "bad":
        return r.choice([b'{"head": ', b'<http://a/> <http://b/> "x', b"nonsense here %s" % token.encode(), b'\xff\xfe\xfd"']), None
    g = graph(r)
    g.add((rdflib.URIRef("http://g.example/" + token), rdflib.URIRef("http://g.example/ns#p"), rdflib.Literal("v")))
    if kind == "nt":
        return g.serialize(format="nt").encode("utf-8") + b"# end\n", g
    h, rel = g, None
    if base and re.fullmatch(r"http://[a-z.]+(/[a-z]+)+", base):
        rel = [r.choice(["#f", "rel", "/root", "x/y"]) for _ in range(2)]
        h = rdflib.Graph()
        for t in g: h.add(t)
        h.add((rdflib.URIRef(urllib.parse.urljoin(base, rel[0])), rdflib.URIRef("http://g.example/ns#q"), rdflib.URIRef(urllib.parse.urljoin(base, rel[1]))))
    if kind == "rdfxml" and rel:
        return g.serialize(format="xml").replace("</rdf:RDF>", '<rdf:Description rdf:about="%s"><q xmlns="http://g.example/ns#" rdf:resource="%s"/></rdf:Description></rdf:RDF>' % tuple(rel)).encode("utf-8"), h
    if kind == "rdfxml":
        return g.serialize(format="xml", encoding=r.choice(["utf-8", "utf-16"])), g
    t = "@prefix z: <http://g.example/ns#> .\n" + g.serialize(format="turtle")
    if rel: t += "\n<%s> z:q <%s> .\n" % tuple(rel)
    g = h
    if kind == "n3":
        t += "\nz:a = z:b .\n"
        g.add((rdflib.URIRef("http://g.example/ns#a"), rdflib.OWL.sameAs, rdflib.URIRef("http://g.example/ns#b")))
    return t.encode("utf-8"), g


def canonical(x):
    return etree.tostring(x, method="c14n")


def classify(value, kind, meaning):
    """(kind of the value, whether it is what the payload means)"""
    if value is True: return "true", False
    if value is None: return "none", False
    if isinstance(value, rdflib.Graph):
        return "graph", isinstance(meaning, rdflib.Graph) and iso(triples(value), triples(meaning)) is not None
    if hasattr(value, "getroot"):
        ok = kind == "xml" and canonical(value.getroot()) == canonical(etree.fromstring(meaning))
        return "xml", ok
    if isinstance(value, (dict, list)):
        return "json", kind == "json" and value == meaning and json.dumps(value, sort_keys=True) == json.dumps(meaning, sort_keys=True)
    return "other", False


def spell(r, t):
    """A content type header that says media type t."""
    if t == "": return r.choice(["", None, ";charset=utf-8"])
    if r.random() < .3: t = r.choice([t.upper(), t.title()])
    return t + r.choice(["", "", ";charset=utf-8", "; charset=UTF-8", " ; q=1"])


# ---------------------------------------------------------------- calls
class Client:
    def __init__(self, cfg, r):
        self.cfg, self.graphs, self.change = cfg, [], None
        kw = {}
        if cfg["postq"] or r.random() < .5: kw["post_queries"] = cfg["postq"]
        if cfg["direct"] or r.random() < .5: kw["post_directly"] = cfg["direct"]
        if cfg["verify"] != "unset": kw["verify"] = {"true": True, "false": False}.get(cfg["verify"], cfg["verify"])
        elif r.random() < .5: kw["verify"] = None
        self.plain = cfg["store"] is False
        q, d = "".join(map(chr, cfg["qurl"])), "".join(map(chr, cfg["durl"]))
        if self.plain: self.c = ps.SPARQLServer(q, **kw)
        else:
            if not cfg["param"] or r.random() < .5: kw["param_style"] = cfg["param"]
            self.c = (ps.PatchableGraphStore if cfg["store"] == "patch" else ps.UpdateableGraphStore)(q, d, **kw)

    def body(self, r):
        """A graph; often one sent before, changed or not, at times of the same size."""
        if self.graphs and r.random() < .4:
            g = r.choice(self.graphs)
            for t in [t for t in g if r.random() < r.choice([0, .2, .6])]:
                g.remove(t)
                g.add((t[0], t[1], rdflib.Literal("x" * r.randrange(3) + word(r))))
            return g
        self.graphs.append(graph(r))
        return self.graphs[-1]

    def bind(self, r, call):
        """The call as a function, with what its body must say."""
        op = call["op"]
        if op in ("query", "update"):
            kw = {}
            if op == "query" and (call["output"] == "xml" or r.random() < .4): kw["output"] = call["output"]
            own = []
            for name, vs in (("default_graph", call["dg"]), ("named_graph", call["ng"])):
                if vs or r.random() < .3:
                    v = list(vs) if len(vs) != 1 else r.choice([list(vs), vs[0]])
                    if isinstance(v, list) and r.random() < .2: v = tuple(v)
                    if not v and r.random() < .5: v = None
                    kw[name] = v
                    own.append((v, list(v) if isinstance(v, list) else None))
            return (lambda: getattr(self.c, op)(call["text"], **kw)), None, own
        if op in ("get", "delete"):
            return (lambda: getattr(self.c, op)(call["graph"])), None, []
        g = self.body(r)
        if op == "patch" and (self.change is None or r.random() < .6):
            g = self.change = ps.changeset(graph(r), g, call["graph"])
        elif op == "patch":     # the same object as before, with something else in it
            g = self.change
            for t in list(g):
                if isinstance(t[2], rdflib.Literal): g.set((t[0], t[1], rdflib.Literal(word(r))))
        if op == "postnew":
            return (lambda: self.c.post(None, g)), g, []
        return (lambda: getattr(self.c, op)(call["graph"], g)), g, []


def perform(c, r, client, call, ans, server, meanwhile=None):
    """Make a call and record it. call: op, text, output, dg, ng, graph as strings."""
    token = "tok%08x" % r.randrange(1 << 32)
    content, meaning = payload(r, ans["pay"], token, call["graph"] if call["op"] == "get" else None)
    if ans["status"] not in (200,): content = content + b" " + token.encode() if r.random() < .8 or ans["pay"] == "bad" else content
    if ans["status"] in (204, 304): content = b""
    server.content, server.status = content, ans["status"]
    ct = spell(r, ans["ctype"])
    server.headers = {} if ct is None else {r.choice(["Content-Type", "content-type"]): ct}
    if r.random() < .2: server.headers["Set-Cookie"] = "k=v"
    server.seen, server.meanwhile = [], meanwhile
    Server.current = server
    f, body, own = client.bind(r, call)
    kept = set(body) if body is not None else None
    out = {"kind": "raise", "exc": "", "same": False, "detail": False}
    err = None
    try:
        v = f()
        out["kind"], out["same"] = classify(v, ans["pay"], meaning)
    except Exception as e:
        err = e
        # the exception, or the first base of it that the module defines
        out["exc"] = next((k.__name__ for k in type(e).__mro__ if k in (ps.SPARQLQueryException, ps.UnknownSPARQLReturnTypeException)), type(e).__name__)
        out["detail"] = token in str(e) if token.encode() in content else True
    for v, was in own:
        if was is not None and v != was: c.violation("a call changed its graph list", {"call": call})
    if kept is not None and set(body) != kept: c.violation("a call changed its graph", {"call": call})
    reqs, bodies = [], []
    for m, u, h, b, ver in server.seen:
        same, nt = True, None
        if call["op"] == "patch":
            back = rdflib.Graph()
            try:
                back.parse(io.BytesIO(b), format="xml")
                same = iso(triples(back), triples(body)) is not None
            except Exception:
                same = False
        elif body is not None:
            nt = (b, triples(body))
        reqs.append({"method": m, "url": codes(u), "body": list(b) if body is None else [], "ctype": codes(h.get("content-type", "")),
                     "accept": codes(h.get("accept", "")), "verify": {True: "true", False: "false"}.get(ver, str(ver)), "same": same})
        bodies.append(nt)
    spec_call = {"op": call["op"], "text": codes(call["text"]), "output": call["output"], "dg": [codes(x) for x in call["dg"]],
                 "ng": [codes(x) for x in call["ng"]], "graph": codes(call["graph"])}
    return {"call": spec_call, "ans": {"status": ans["status"], "ctype": codes(ct or ""), "pay": ans["pay"]}, "out": out, "reqs": reqs}, bodies, repr(err)[:300]


# ---------------------------------------------------------------- judging
class Record:
    """What was observed, without repetitions, by configuration."""

    def __init__(self):
        self.by, self.bodies, self.errs = collections.defaultdict(dict), {}, {}

    def add(self, cfg, ev, bodies, err, history):
        k = vf.key(cfg)
        self.by[k].setdefault(vf.key(ev), (ev, bodies, err, history))

    def merge(self, data):
        for k, evs in data:
            for ev, bodies, err, history in evs:
                self.by[k].setdefault(vf.key(ev), (ev, bodies, err, history))

    def data(self):
        return [(k, list(v.values())) for k, v in self.by.items()]


def judge(c, rec, ops):
    """All bodies read by NTriples, then all calls judged by TraceSparql."""
    docs, uses = [], []
    for k, v in rec.by.items():
        for ev, bodies, _, _ in v.values():
            for q, nt in zip(ev["reqs"], bodies):
                if nt is None: continue
                try: text = nt[0].decode("utf-8")
                except UnicodeDecodeError:
                    q["same"] = False
                    continue
                docs.append({"f": "parse", "q": False, "text": codes(text)})
                uses.append((q, nt[1]))
    if docs:
        res, ans = vf.evaluate("EvalNTriples", docs, timeout=2000)
        c.model(res)
        c.add("bodies_read_by_specification", len(docs))
        for (q, want), a in zip(uses, ans):
            q["same"] = bool(a["ok"]) and iso(from_spec_all(a["out"]), want) is not None
    traces, info = [], []
    for k, v in rec.by.items():
        evs = list(v.values())
        for i in range(0, len(evs), 40):
            traces.append({"cfg": json.loads(k), "ev": [e[0] for e in evs[i:i + 40]]})
            info.append(evs[i:i + 40])
    res, bad = vf.validate("TraceSparql", traces, timeout=2000)
    c.model(res)
    c.add("distinct_observations", sum(len(t["ev"]) for t in traces))
    for t, i, clause in bad:
        ev, _, err, history = info[t][i]
        if ev["call"]["op"] not in ops: continue
        if (clause == "outcome") != (c.prop == "C23") and c.prop != "C24": continue
        show = lambda w: "".join(map(chr, w))
        c.violation("%s: %s is wrong" % (ev["call"]["op"], clause),
                    {"cfg": dict(traces[t]["cfg"], qurl=show(traces[t]["cfg"]["qurl"]), durl=show(traces[t]["cfg"]["durl"])),
                     "call": dict(ev["call"], text=show(ev["call"]["text"]), graph=show(ev["call"]["graph"]), dg=[show(x) for x in ev["call"]["dg"]], ng=[show(x) for x in ev["call"]["ng"]]),
                     "ans": dict(ev["ans"], ctype=show(ev["ans"]["ctype"])), "out": ev["out"], "error": err, "earlier": history,
                     "requests": [dict(q, url=show(q["url"]), body=bytes(q["body"]).decode("utf-8", "replace"), ctype=show(q["ctype"]), accept=show(q["accept"])) for q in ev["reqs"]]})


# ---------------------------------------------------------------- concrete values
TEXTS = ["SELECT * WHERE { ?s ?p ?o }", "ASK { ?s ?p \"caf\u00e9 & 100% = a+b;\" }", "# c\r\nINSERT DATA { <a:b> <a:c> '\U0001f600' }", "", " ", "query=x&update=y", "%41%zz",
         "SELECT ?x { ?x ?y '''\n\n''' } LIMIT 5\n", "\u00ff" * 3, "a" * 300, "SELECT ?o WHERE { GRAPH <http://g.example/a> { ?s ?p ?o } }"]
IRIS = ["http://g.example/a", "http://g.example/dir/graph", "http://g.example/a;b?c=d&e=f#g", "http://g.example/caf\u00e9", "http://g.example/100%25/%41", "urn:x:y+z", "http://g.example/a/b/c/", "mailto:a@b", "http://g.example/;p=1,2~3",
        "http://g.example/\u65e5\u672c#\U0001f600", "http://g.example/a+b"]
QURLS = ["http://server.example/sparql", "https://server.example:8443/a/b/sparql", "http://server.example/sparql?key=1", "http://server.example/sparql?key=a%20b&x=%C3%A9"]
DURLS = ["http://server.example/data/", "https://server.example:8443/a/b/", "http://server.example/rdf-graphs/"]


def cfg_of(c, base, ops):
    r = c.rng
    store = False if not ops - {"query", "update"} and r.random() < .4 else "patch" if "patch" in ops or r.random() < .5 else "update"
    has = len(base["qurl"]) > 8
    return {"postq": base["postq"], "direct": base["direct"], "param": base["param"], "store": store,
            "verify": r.choice(["unset", "true", "false", "/etc/ca.pem"]),
            "qurl": codes(r.choice(QURLS[2:] if has else QURLS[:2])), "durl": codes(r.choice(DURLS))}


def replay_pairs(c, recs, ops):
    """Walks over TLC's pairs of calls on one client each."""
    by = collections.defaultdict(list)
    for rec in recs:
        if rec["call"]["op"] == "none": continue
        if rec["call"]["op"] in ops and (rec["from"]["op"] in ops | {"none"}):
            by[vf.key(rec["cfg"])].append(rec)

    def part(c, k):
        r = c.rng
        out = Record()
        base = json.loads(k)
        texts, iris = r.sample(TEXTS, 2), r.sample(IRIS, 2)
        m = {}
        def named(kind, w, pool):
            if not w: return ""
            if (kind, str(w)) not in m: m[kind, str(w)] = pool.pop()
            return m[kind, str(w)]
        def text(w): return named("t", w, texts)
        def irival(w): return named("i", w, iris)
        cfg = cfg_of(c, base, ops)
        trans = [(vf.key(x["from"]), x, vf.key(x["call"])) for x in by[k]]
        init = vf.key({"op": "none", "text": [], "output": "json", "dg": [], "ng": [], "graph": []})
        for walk in vf.edge_cover(trans, init, r, 60):
            client, server, hist = Client(cfg, r), Server(), []
            for _, x, _ in walk:
                s = x["call"]
                call = {"op": s["op"], "text": text(s["text"]), "output": s["output"], "dg": [irival(w) for w in s["dg"]],
                        "ng": [irival(w) for w in s["ng"]], "graph": irival(s["graph"])}
                ev, bodies, err = perform(c, r, client, call, x["ans"], server)
                out.add(cfg, ev, bodies, err, hist[-2:])
                hist.append("%s -> %s" % (call["op"], x["ans"]["status"]))
                c.add("traces_validated_against_impl")
        return out.data()
    return fan(c, part, sorted(by))


def fan(c, fn, items):
    """Like c.parallel, and collects the records."""
    import pickle, tempfile, shutil
    d = tempfile.mkdtemp(prefix="vf_sp_")
    try:
        def run(c, it):
            with open(os.path.join(d, str(it[0])), "wb") as f:
                pickle.dump(fn(c, it[1]), f)
        c.parallel(run, list(enumerate(items)))
        rec = Record()
        for i in range(len(items)):
            with open(os.path.join(d, str(i)), "rb") as f:
                rec.merge(pickle.load(f))
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_answers(c, recs, ops):
    todo = [x for x in recs if x["call"]["op"] in ops]

    def part(c, k):
        r = c.rng
        out = Record()
        for x in todo[k::8]:
            for _ in range(c.pick(2, 12)):
                cfg = cfg_of(c, dict(x["cfg"], postq=r.random() < .5, direct=r.random() < .5, param=r.random() < .5), ops)
                client, server = Client(cfg, r), Server()
                for _ in range(r.choice([1, 1, 2])):
                    call = {"op": x["call"]["op"], "text": r.choice(TEXTS[:3]), "output": x["call"]["output"], "dg": [], "ng": [], "graph": r.choice(IRIS) if x["call"]["op"] not in ("query", "update", "postnew") else ""}
                    ev, bodies, err = perform(c, r, client, call, x["ans"], server)
                    out.add(cfg, ev, bodies, err, [])
                    c.add("traces_validated_against_impl")
        return out.data()
    return fan(c, part, range(8))


TYPES = ["", "application/sparql-results+json", "application/sparql-results+xml", "application/rdf+xml", "text/turtle", "text/plain", "text/rdf+n3", "text/html", "application/json",
         "application/xml", "application/octet-stream", "text/turtle2", "application/rdf+xmlx", "application/x-turtle"]
FITTING = {"application/sparql-results+json": "json", "application/sparql-results+xml": "xml", "application/rdf+xml": "rdfxml", "text/turtle": "turtle", "text/plain": "nt", "text/rdf+n3": "n3"}


def random_histories(c, ops, count):
    def part(c, k):
        r = c.rng
        out = Record()
        for _ in range(count):
            clients = []
            for _ in range(r.choice([1, 1, 2])):
                base = {"postq": r.random() < .5, "direct": r.random() < .4, "param": r.random() < .5, "qurl": "x" * r.choice([1, 20])}
                clients.append((cfg_of(c, base, ops), r.random()))
            clients = [(cfg, Client(cfg, r), Server()) for cfg, _ in clients]
            hist = []

            def some_text():
                return r.choice(TEXTS) if r.random() < .5 else "".join(r.choice(WORDS + ["?x", "{", "}", ";", "%", "#", "\u0000"]) for _ in range(r.randrange(12)))

            def iri():
                return r.choice(IRIS) if r.random() < .6 else "http://g.example/" + "".join(r.choice(["a", "/", "%20", "%", "+", "&", "=", "?", "#", "\u00e9", "~", ";", "//", "\U00010300"]) for _ in range(r.randrange(8)))

            def step(cfg, client, server, nested=False):
                op = r.choice(sorted(ops if cfg["store"] else ops & {"query", "update"}))
                pr = op in ("query", "update")
                call = {"op": op, "text": some_text() if pr else "", "output": r.choice(["json", "xml"]) if op == "query" else "json",
                        "dg": [iri() for _ in range(r.choice([0, 0, 1, 2, 5]))] if pr else [], "ng": [iri() for _ in range(r.choice([0, 0, 1, 3]))] if pr else [],
                        "graph": iri() if not pr and op != "postnew" else ""}
                t = r.choice(TYPES)
                ans = {"status": r.choice([200, 200, 200, 200, 204, 201, 202, 0, 302, 304, 400, 403, 404, 410, 429, 500, 502, 503, 599]), "ctype": t,
                       "pay": FITTING.get(t, "json") if r.random() < .7 else r.choice(["json", "xml", "rdfxml", "turtle", "nt", "n3", "bad"])}
                todo = None
                if not nested and len(clients) > 1 and r.random() < .3:
                    other = next(x for x in clients if x[1] is not client)
                    def todo():
                        step(*other, nested=True)
                        Server.current = server
                ev, bodies, err = perform(c, r, client, call, ans, server, todo)
                out.add(cfg, ev, bodies, err, hist[-3:])
                hist.append("%s -> %s" % (op, ans["status"]))
                c.add("traces_validated_against_impl")
            for _ in range(r.randrange(1, 12)):
                step(*r.choice(clients))
        return out.data()
    return fan(c, part, range(8))


def all_statuses(c, ops):
    """Every operation with every status there is, the answer otherwise being fine."""
    def part(c, k):
        r = c.rng
        out = Record()
        for op in sorted(ops):
            base = {"postq": r.random() < .5, "direct": r.random() < .4, "param": r.random() < .5, "qurl": "x"}
            cfg = cfg_of(c, base, ops)
            while not cfg["store"] and op not in ("query", "update"): cfg = cfg_of(c, base, ops)
            client, server = Client(cfg, r), Server()
            t = "text/turtle" if op == "get" else r.choice(["application/sparql-results+json", "text/turtle"])
            for status in range(200 + k, 600, 8):
                pr = op in ("query", "update")
                call = {"op": op, "text": r.choice(TEXTS) if pr else "", "output": "json", "dg": [], "ng": [], "graph": r.choice(IRIS) if not pr and op != "postnew" else ""}
                ev, bodies, err = perform(c, r, client, call, {"status": status, "ctype": t, "pay": FITTING[t]}, server)
                out.add(cfg, ev, bodies, err, [])
                c.add("traces_validated_against_impl")
        return out.data()
    return fan(c, part, range(8))


OPS = {"C22": {"query", "update"}, "C23": {"query", "update"}, "C24": {"get", "put", "post", "postnew", "delete", "patch"}}


def run(c):
    ops = OPS[c.prop]
    rec = Record()
    if c.prop == "C23":
        res, recs = vf.explore("MCSparqlClient", "MCSparqlAnswers", timeout=600)
        c.model(res)
        rec.merge(replay_answers(c, recs, ops).data())
    else:
        res, recs = vf.explore("MCSparqlClient", timeout=600)
        c.model(res)
        # calls of the other kind take part in the histories as well
        rec.merge(replay_pairs(c, recs, ops | ({"get", "delete", "patch"} if c.prop == "C22" else {"query", "update"})).data())
        if c.prop == "C24":
            res, recs = vf.explore("MCSparqlClient", "MCSparqlAnswers", timeout=600)
            c.model(res)
            rec.merge(replay_answers(c, recs, ops).data())
    c.cov["transitions_of_the_model_replayed"] = len(recs)
    rec.merge(random_histories(c, ops | {"query"} if c.prop == "C24" else ops, c.pick(120, 3000)).data())
    if c.prop != "C22": rec.merge(all_statuses(c, ops).data())
    judge(c, rec, ops)
    for k, v in list(rec.by.items())[:3]:
        ev = list(v.values())[-1][0]
        c.sample({"call": ev["call"]["op"], "answer": ev["ans"]["status"], "outcome": ev["out"]["kind"], "method": [q["method"] for q in ev["reqs"]],
                  "url": ["".join(map(chr, q["url"])) for q in ev["reqs"]]})


# ---------------------------------------------------------------- C25
CS = "http://purl.org/vocab/changeset/schema#"
RDF = str(rdflib.RDF)
ROLE = {RDF + x: x for x in ("type", "subject", "predicate", "object", "Statement")}
ROLE.update({CS + x: x for x in ("ChangeSet", "createdDate", "subjectOfChange", "removal", "addition")})


def named(t):
    """A term as a string for the specification, vocabulary by its short name."""
    k = proj(t)
    if k[0] == "i" and k[1] in ROLE: return ROLE[k[1]]
    return json.dumps(k)


def spelled(g):
    return sorted([named(x) for x in t] for t in (g.triples((None, None, None)) if isinstance(g, rdflib.Graph) else g))


KEPT = []    # graphs in use from one call to the next


class GraphOf:
    def __init__(self, r, ts, other=None):
        kept = [g for g in KEPT if g is not other]
        if kept and r.random() < .4:
            self.g = r.choice(kept)
            for t in set(self.g) - set(ts): self.g.remove(t)
        else:
            self.g = r.choice([rdflib.Graph, rdflib.Graph, rdflib.ConjunctiveGraph])()
            KEPT.append(self.g)
            del KEPT[:-3]
        ts = list(ts)
        r.shuffle(ts)
        for t in ts: self.g.add(t)


def observe(c, a, b, ex, uri):
    """Both functions on a pair of graphs: (event, problem)."""
    r = c.rng
    ga = GraphOf(r, a).g
    gb = GraphOf(r, b, ga).g
    if r.random() < .05 and set(a) == set(b): gb = ga
    e = [r.choice([str, rdflib.URIRef])(x) for x in ex]
    ev = {"a": spelled(a), "b": spelled(b), "ex": sorted(named(rdflib.URIRef(x)) for x in ex), "name": named(rdflib.URIRef(uri))}
    for attempt in range(r.choice([1, 2])):
        rem, add = ps.differences(ga, gb, r.choice([list, tuple])(e)) if e or r.random() < .5 else ps.differences(ga, gb)
        cs = ps.changeset(ga, gb, r.choice([str, rdflib.URIRef])(uri))
    ev["rem"], ev["add"], ev["cs"] = spelled(rem), spelled(add), spelled(cs)
    bad = None
    if set(ga) != set(a) or set(gb) != set(b): bad = "the graphs were changed"
    for d in cs.objects(None, rdflib.URIRef(CS + "createdDate")):
        try:
            t = datetime.datetime.fromisoformat(str(d))
            if abs((datetime.datetime.now(datetime.timezone.utc) - t).total_seconds()) > 3600: bad = "the date is not the time of the change"
        except (ValueError, TypeError):
            bad = "the date is not a date-time with a time zone"
    return ev, bad


def concrete(r):
    """Terms for the names of the model."""
    s = [rdflib.URIRef("http://c.example/s1"), rdflib.URIRef("http://c.example/\u00e9"), rdflib.BNode(), rdflib.BNode("x")]
    o = [rdflib.Literal("v"), rdflib.Literal("v", lang="en"), rdflib.Literal("v", lang="fr"), rdflib.Literal("1"), rdflib.Literal("1", datatype=rdflib.XSD.integer), rdflib.Literal("http://c.example/s1"),
         rdflib.Literal(""), rdflib.BNode(), rdflib.URIRef("http://c.example/o"), rdflib.Literal("1.0", datatype=rdflib.XSD.decimal), rdflib.Literal("01", datatype=rdflib.URIRef("http://c.example/t")), rdflib.RDF.Statement]
    p = [rdflib.URIRef("http://c.example/p"), rdflib.URIRef("http://c.example/p2"), rdflib.RDF.type, rdflib.RDF.subject, rdflib.URIRef(CS + "removal"), rdflib.URIRef("http://c.example/q#r")]
    s, o, p = r.sample(s, 2), r.sample(o, 2), r.sample(p, 2)
    return {"s1": s[0], "s2": s[1], "o1": o[0], "o2": o[1], "p1": p[0], "p2": p[1]}


URIS = ["http://c.example/graph", "http://c.example/g?x=y&z#f", "http://c.example/\u00e9"]


def run25(c):
    res, recs = vf.explore("MCChangeset", c.pick("MCChangeset", "MCChangesetDeep"), timeout=2000)
    c.model(res)
    c.cov["pairs_of_the_model"] = len(recs)
    r = c.rng
    evs = []

    def note(ev, bad):
        c.add("traces_validated_against_impl")
        evs.append(ev)
        if bad: c.violation(bad, {"a": ev["a"], "b": ev["b"], "ex": ev["ex"]})
    for x in recs:
        m = concrete(r)
        t = lambda k: [tuple(m[y] for y in z) for z in x[k]]
        ev, bad = observe(c, t("a"), t("b"), [str(m[y]) for y in x["ex"]], r.choice(URIS))
        note(ev, bad)
        for k in ("rem", "add"):
            if sorted(ev[k]) != spelled(t(k)):
                c.violation("differences are wrong", {"a": ev["a"], "b": ev["b"], "ex": ev["ex"], k: ev[k], "expected": spelled(t(k))})
    for _ in range(c.pick(150, 3000)):
        pool = list(graph(r, r.randrange(1, r.choice([5, 40])))) + list(ps.changeset(graph(r, 3), graph(r, 3), URIS[0])) * (r.random() < .1)
        a = {t for t in pool if r.random() < .6}
        b = {t for t in pool if r.random() < .6}
        if r.random() < .1: b = set(a)
        ex = r.sample(sorted({str(t[1]) for t in pool} | {"http://c.example/none"}), r.choice([0, 0, 1, 2]))
        note(*observe(c, sorted(a), sorted(b), ex, r.choice(URIS)))
    traces = [{"ev": evs[i:i + 20]} for i in range(0, len(evs), 20)]
    res, bad = vf.validate("TraceChangeset", traces, timeout=2000)
    c.model(res)
    for t, i, clause in bad[:5]:
        c.violation(clause, traces[t]["ev"][i])
    c.sample({"a": evs[-1]["a"][:3], "removed": evs[-1]["rem"][:3]})


if __name__ == "__main__":
    vf.main(sys.argv[1], run25 if sys.argv[1] == "C25" else run)
