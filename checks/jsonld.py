"""C26: JSON-LD loading against spec/JsonLd.tla."""
import copy, io, json, os, sys, tempfile, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from rdfio import Ids, iso, proj
from pymantic.parsers import jsonld_parser
from pymantic.parsers.jsonld import PyLDLoader
from pymantic.primitives import BlankNode, Dataset, Literal, NamedNode, Quad

NS, BASE, RDF, XSD = "http://j.example/ns#", "http://j.example/d/", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://www.w3.org/2001/XMLSchema#"


# ---------------------------------------------------------------- documents
def tree(tokens):
    """The nodes a token sequence opens at the top, as nested dictionaries."""
    top = []
    stack = [("graph", top)]
    for t in tokens:
        k, cur = stack[-1]
        if t["t"] == "node":
            n = {"id": t["x"], "types": [], "props": [], "revs": [], "graph": None}
            cur.append(("node", n))
            stack.append(("node", n))
        elif t["t"] == "type": cur["types"].append(t["x"])
        elif t["t"] in ("prop", "rev"):
            vs = []
            cur["props" if t["t"] == "prop" else "revs"].append((t["x"]["v"], vs))
            stack.append((t["t"], vs))
        elif t["t"] == "val": cur.append(("val", t["x"]))
        elif t["t"] == "null": cur.append(("null", None))
        elif t["t"] == "list":
            vs = []
            cur.append(("list", vs))
            stack.append(("list", vs))
        elif t["t"] == "graph":
            if cur["graph"] is None: cur["graph"] = []
            stack.append(("graph", cur["graph"]))
        elif t["t"] == "end": stack.pop()
    return top


NATIVE = {("5", XSD + "integer"): 5, ("-17", XSD + "integer"): -17, ("0", XSD + "integer"): 0, ("true", XSD + "boolean"): True, ("false", XSD + "boolean"): False,
          ("2.5E0", XSD + "double"): 2.5, ("1.0E-7", XSD + "double"): 1e-7, ("-1.2345E2", XSD + "double"): -123.45, ("1.0E21", XSD + "double"): 1e21}


class Render:
    """A JSON-LD spelling of a document."""

    def __init__(self, r, m, plain=False):
        self.r, self.m = r, m
        on = lambda p: not plain and r.random() < p
        self.ctx = {}
        self.alias = {}
        self.prefix = on(.5)
        self.vocab = on(.4)
        self.base = on(.4)
        self.terms = on(.6)
        self.lang = r.choice(["en", "fr"]) if on(.25) else None
        if self.prefix: self.ctx.update({"n": NS, "d": BASE})
        if self.vocab: self.ctx["@vocab"] = NS
        if self.base: self.ctx["@base"] = BASE
        if self.lang: self.ctx["@language"] = self.lang
        for k in ("id", "type", "graph", "value", "language", "list"):
            if on(.15):
                self.alias["@" + k] = k
                self.ctx[k] = "@" + k
        self.count = 0

    def kw(self, k): return self.alias.get(k, k)

    def iri(self, term):
        if term["k"] == "b": return "_:" + self.m(term["v"])
        return self.m(term["v"])

    def ref(self, term):
        """An @id."""
        x = self.iri(term)
        if x.startswith(BASE) and x[len(BASE):].isalnum():
            if self.base and self.r.random() < .6: return x[len(BASE):]
            if self.prefix and self.r.random() < .6: return "d:" + x[len(BASE):]
        return x

    def word(self, x):
        """A property or type."""
        if x.startswith(NS) and x[len(NS):].isalnum():
            if self.vocab and self.r.random() < .6: return x[len(NS):]
            if self.prefix and self.r.random() < .6: return "n:" + x[len(NS):]
        return x

    def literal(self, x):
        v, g, d = self.m(x["v"]), x["g"], self.m(x["d"]) if x["d"] else ""
        r = self.r
        if (v, d) in NATIVE and r.random() < .6:
            n = NATIVE[v, d]
            return r.choice([n, {self.kw("@value"): n}])
        if g:
            if self.lang == g.lower() and r.random() < .5: return v
            return {self.kw("@value"): v, self.kw("@language"): g}
        if d:
            if d not in (XSD + "double", XSD + "integer", XSD + "boolean", RDF + "JSON") and v.lstrip("-").isdigit() and str(int(v)) == v and len(v) < 10 and r.random() < .3:
                v = int(v)
            return {self.kw("@value"): v, self.kw("@type"): self.word(d)}
        if self.lang is None and r.random() < .5: return v
        return {self.kw("@value"): v, "@type": XSD + "string"} if r.random() < .2 else {self.kw("@value"): v}

    def value(self, kind, x):
        if kind == "null": return self.r.choice([None, {self.kw("@value"): None}])
        if kind == "node": return self.node(x)
        if kind == "list": return {self.kw("@list"): self.many([self.value(*y) for y in x])}
        if x["k"] == "l": return self.literal(x)
        return {self.kw("@id"): self.ref(x)}

    def many(self, vs):
        return vs[0] if len(vs) == 1 and not isinstance(vs[0], list) and vs[0] is not None and self.r.random() < .5 else vs

    def term(self, definition):
        self.count += 1
        k = "t%d" % self.count
        self.ctx[k] = definition
        return k

    def prop(self, p, vs):
        """(key, value) for a property."""
        p, r = self.m(p), self.r
        lits = [x for k, x in vs if k == "val" and x["k"] == "l"]
        if self.terms and vs and r.random() < .7:
            if all(k == "val" and x["k"] != "l" for k, x in vs):
                return self.term({"@id": p, "@type": "@id"}), self.many([self.ref(x) for _, x in vs])
            if len(vs) == 1 and vs[0][0] == "list":
                return self.term({"@id": p, "@container": "@list"}), [self.value(*y) for y in vs[0][1]]
            if len(lits) == len(vs) and all(x["g"] for x in lits):
                if len({x["g"] for x in lits}) == 1 and r.random() < .5:
                    return self.term({"@id": p, "@language": lits[0]["g"]}), self.many([self.m(x["v"]) for x in lits])
                out = {}
                for x in lits: out.setdefault(x["g"], []).append(self.m(x["v"]))
                return self.term({"@id": p, "@container": "@language"}), {g: self.many(v) for g, v in out.items()}
            if len(lits) == len(vs) and len({x["d"] for x in lits}) == 1 and lits[0]["d"] and not lits[0]["g"]:
                return self.term({"@id": p, "@type": self.m(lits[0]["d"])}), self.many([self.m(x["v"]) for x in lits])
            if not any(k == "null" for k, _ in vs):
                if len(lits) == len(vs) and r.random() < .3: return self.term({"@id": p, "@container": "@index"}), {"k%d" % i: self.value(*x) for i, x in enumerate(vs)}
                return self.term({"@id": p, "@container": "@set"}), [self.value(*x) for x in vs]
        if any(k == "list" for k, _ in vs) or r.random() < .7: return self.word(p), self.many([self.value(*x) for x in vs])
        return self.word(p), {"@set": [self.value(*x) for x in vs]}

    def node(self, n):
        out = []
        if n["id"]["k"] != "a": out.append((self.kw("@id"), self.ref(n["id"])))
        if n["types"]:
            ts = [self.word(self.iri(x)) if x["k"] == "i" else self.iri(x) for x in n["types"]]
            out.append((self.kw("@type"), self.many(ts)))
        for p, vs in n["props"]: out.append(self.prop(p, vs))
        rev = {}
        for p, vs in n["revs"]:
            if self.terms and vs and self.r.random() < .5:
                out.append((self.term({"@reverse": self.m(p)}), self.many([self.value(*x) for x in vs])))
            else:
                k = self.word(self.m(p))
                rev.setdefault(k, []).extend(self.value(*x) for x in vs)
        if rev: out.append(("@reverse", {k: self.many(v) for k, v in rev.items()}))
        if n["graph"] is not None: out.append((self.kw("@graph"), [self.node(x) for _, x in n["graph"]]))
        self.r.shuffle(out)
        obj = {}
        for k, v in out:
            if k in obj:      # the same key again: the values of both
                a = obj[k]["@set"] if isinstance(obj[k], dict) and "@set" in obj[k] else obj[k]
                b = v["@set"] if isinstance(v, dict) and "@set" in v else v
                obj[k] = (a if isinstance(a, list) else [a]) + (b if isinstance(b, list) else [b])
            else: obj[k] = v
        return obj

    def document(self, top):
        nodes = [self.node(n) for _, n in top]
        if not self.ctx:
            # a lone node that has nothing but a graph would be the default graph
            return nodes if len(nodes) != 1 or self.r.random() < .5 or set(nodes[0]) <= {"@graph"} else nodes[0]
        ctx = self.r.choice([self.ctx, [self.ctx]])
        if self.count == 0 and self.r.random() < .3:
            return [dict([("@context", self.ctx)] + list(x.items())) for x in nodes]
        return {"@context": ctx, "@graph": nodes} if self.r.random() < .5 else {"@graph": nodes, "@context": ctx}


class Names:
    """Texts for the uninterpreted values of a document."""
    BUILTIN = {"rdf:type": RDF + "type", "rdf:first": RDF + "first", "rdf:rest": RDF + "rest", "rdf:nil": RDF + "nil"}

    def __init__(self, m): self.table = dict(self.BUILTIN, **m)
    def __call__(self, v): return self.table.get(v, v)


def model_names(r):
    return Names({"i1": r.choice([BASE + "x1", BASE + "caf\u00e9?q=1#f", "urn:x:y", BASE + "x1/", BASE + "x1#", BASE + "X1", BASE + "x%311", BASE + "cafe\u0301"]), "p": r.choice([NS + "p", NS + "p-q", "http://j.example/other", NS + "P", NS + "p/", NS + "p?q=#"]), "b1": r.choice(["b1", "b0", "x.y", "-"]),
                  "dt": r.choice([NS + "dt", XSD + "date", XSD + "string2", NS + "dt/", NS + "dt#", NS, XSD + "Date", XSD + "String", "urn:d:", "http://j.example/d%2F"]), "x": r.choice(["x", "", "5", "a b\n\u65e5\U0001f600", '"q"'])})


def expected(out, names):
    """The quads of the specification, with texts."""
    def t(x):
        if x["k"] == "d": return ("d",)
        if x["k"] == "b": return ("b", x["v"])
        if x["k"] == "i": return ("i", names(x["v"]))
        return ("l", names(x["v"]), x["g"].lower(), names(x["d"]) if x["d"] else "")
    return {tuple(t(x) for x in q) for q in out}


def observed(ds):
    ids = Ids()
    out = set()
    for q in ds:
        t = [proj(x, ids) for x in q]
        if t[2][0] == "l" and t[2][3] == XSD + "string" and not t[2][2]: t[2] = ("l", t[2][1], "", "")
        out.add(tuple(t))
    return out


def load(r, parser, obj, sink=None, options=None):
    """Through one of the entry points."""
    k = r.randrange(4) if sink is None and options is None else 0
    if k == 1: return parser.document.parse(json.dumps(obj, ensure_ascii=r.random() < .5))
    if k == 2: return parser.document.parse_file(io.StringIO(json.dumps(obj)))
    if k == 3:
        text = json.dumps(obj, ensure_ascii=r.random() < .5).encode("utf-8")
        return parser.document.parse_file(io.BytesIO(text)) if r.random() < .5 else parser.document.parse(text)
    before = copy.deepcopy(obj)
    kw = {} if options is None else {"options": options}
    out = parser.parse_json(obj, sink, **kw) if sink is not None else parser.parse_json(obj, **kw)
    if obj != before or json.dumps(obj) != json.dumps(before): raise AssertionError("the document was changed")
    return out


def one(c, parser, doc, out, names, r):
    obj = Render(r, names, plain=r.random() < .3).document(tree(doc))
    got, ex = vf.outcome(load, r, parser, obj)
    c.add("traces_validated_against_impl")
    want = expected(out, names)
    if ex is not None or not isinstance(got, Dataset) or iso(observed(got), want) is None or len(list(got)) != len(want):
        c.violation("loading gives other quads", {"document": obj, "error": ex, "expected": sorted(want), "got": None if got is None else sorted(observed(got))})
    return obj


def replay(c, recs):
    def part(c, k):
        own = PyLDLoader()
        for rec in recs[k::8]:
            obj = one(c, c.rng.choice([jsonld_parser, own]), rec["doc"], rec["out"], model_names(c.rng), c.rng)
            if c.enough(): return
        c.sample({"document": obj, "quads": len(rec["out"])})
    c.parallel(part, range(8))


# ---------------------------------------------------------------- random documents
def T(k, v, g="", d=""): return {"k": k, "v": v, "g": g, "d": d}


ANON = T("a", "")


def random_doc(r, size, labels):
    """A random token sequence that the machine accepts."""
    iris = [T("i", x) for x in (BASE + "a", BASE + "A", BASE + "a/", BASE + "a#", BASE + "%61", BASE + "e\u0301", BASE + "b", BASE + "c/d", BASE + "\u00e9", "urn:x:y", NS + "C", "http://j.example/ns#")]
    preds = [T("i", x) for x in (NS + "p", NS + "P", NS + "p#", NS + "p/", NS + "q", NS + "r", NS + "s-t", "http://j.example/o", RDF + "value", RDF + "first")]
    words = ["", "x", "X", "e\u0301", "\u00e9", " x", "05", "5", "true", "a\nb", "caf\u00e9", "\U0001f600", "@id", "_:b0", "http://x/", '"', "\\", " sp ", "\u0000", "\u007f\u0085"]
    bn = [T("b", x) for x in labels]

    def literal():
        k = r.random()
        if k < .3: return T("l", r.choice(words))
        if k < .55: return T("l", r.choice(words), r.choice(["en", "fr", "en-GB", "zh-Hant"]))
        if k < .75: return T("l", *(lambda x: (x[0], "", x[1]))(r.choice(list(NATIVE))))
        return T("l", r.choice(words), "", r.choice([NS + "dt", NS + "dt#", NS + "DT", NS + "dt/", XSD + "date", XSD + "anyURI", BASE + "x"]))
    toks = []

    def emit(t, x=ANON): toks.append({"t": t, "x": x})

    def node(depth):
        x = r.choice(iris + bn * 2 + [ANON] * 3)
        emit("node", x)
        used = x["k"] != "a"
        for _ in range(r.choice([0, 0, 1])): emit("type", r.choice(iris + bn)); used = True
        for _ in range(r.choice([0, 1, 1, 2, 3]) if depth < 4 else 0):
            if r.random() < .15:
                emit("rev", r.choice(preds))
                for _ in range(r.choice([0, 1, 2])):
                    if r.random() < .5: node(depth + 1)
                    else: emit("val", r.choice(iris + bn))
            else:
                emit("prop", r.choice(preds))
                k = len(toks)
                values(depth, r.choice([0, 1, 1, 1, 2, 3]))
                used = used or any(t["t"] != "null" for t in toks[k:])
            emit("end")
        if used and r.random() < .25 and depth < 3:
            emit("graph")
            for _ in range(r.randrange(4)): node(depth + 1)
            emit("end")
        emit("end")

    def values(depth, n, inlist=False):
        same = r.choice([None, None, "ref", "lang", "lit"])
        for _ in range(n):
            k = r.random()
            if same == "ref": emit("val", r.choice(iris + bn))
            elif same == "lang": emit("val", T("l", r.choice(words), r.choice(["en", "fr"])))
            elif same == "lit" or k < .35: emit("val", literal())
            elif k < .55: emit("val", r.choice(iris + bn))
            elif k < .75 and len(toks) < size: node(depth + 1)
            elif k < .9 and len(toks) < size:
                emit("list")
                values(depth + 1, r.choice([0, 1, 2, 5]), True)
                emit("end")
            elif not inlist: emit("null")
    while len(toks) < size and (not toks or r.random() < .8): node(0)
    return toks


def relabel(doc, tag):
    """The document with its blank nodes told apart from those of other loads."""
    return [dict(t, x=dict(t["x"], v=t["x"]["v"] + "#" + tag) if t["x"]["k"] == "b" else t["x"]) for t in doc]


BAD = [{"@id": 5}, {"@context": 7, "http://p/": 1}, {"@type": 7}, {"http://p/": {"@value": {"a": 1}}}, {"@id": "_:b0", "http://p/": {"@value": "x", "@type": "_:b0 "}, "@type": [5]},
       [{"@id": "_:b0", "http://p/": {"@id": "_:b1"}}, {"@id": "http://x/", "@graph": {"@list": {"@id": 5}}, "@language": 7, "@reverse": 3}], {"http://p/": {"@value": "x", "@language": "en", "@type": "http://t/"}}]


class Failing(Dataset):
    def __init__(self, n):
        super().__init__()
        self.left = n

    def add(self, q):
        if q in self: return
        if self.left == 0: raise RuntimeError("sink is full")
        self.left -= 1
        super().add(q)


class Gate(Dataset):
    """Lets something else happen on another thread before a quad is added."""
    def __init__(self, n, f):
        super().__init__()
        self.n, self.f = n, f

    def fire(self):
        if self.f is not None:
            f, self.f = self.f, None
            t = threading.Thread(target=f)
            t.start()
            t.join()

    def add(self, q):
        if self.n == 0: self.fire()
        self.n -= 1
        super().add(q)


def histories(c, count, size):
    """Sequences of loads on one parser, some failing, some into a shared sink, some at once."""
    r = c.rng
    plans, docs = [], []
    for _ in range(count):
        labels = r.sample(["b0", "b1", "b2", "x", "c14n0", "a.b"], 3)
        plan = []
        for _ in range(r.choice([1, 2, 3, 5])):
            k = r.random()
            if k < .12: plan.append(("bad", r.choice(BAD)))
            elif k < .2: plan.append(("text", r.choice(['{"@id": ', "", "nonsense", '[{"@id": "http://x/"}'])))
            else:
                d = random_doc(r, r.randrange(3, size), labels)
                plan.append(("fail" if k < .3 else "sink" if k < .5 else "base" if k < .6 else "threads" if k < .68 else "load", d))
                docs.append(d)
        shared = [t for i, p in enumerate(plan) if p[0] == "sink" for t in relabel(p[1], str(i))]
        docs.append(shared)
        plans.append((plan, shared))
    uniq = {vf.key(d): d for d in docs}
    keys = sorted(uniq)
    res, ans = vf.evaluate("EvalJsonLd", [{"doc": uniq[k]} for k in keys], timeout=2000)
    c.model(res)
    ans = dict(zip(keys, ans))
    names = Names({})
    for a in ans.values():
        if not a["ok"]: raise vf.MachineryError("random document refused by the specification")

    def part(c, k):
        r = c.rng
        for plan, shared in plans[k::8]:
            parser = r.choice([jsonld_parser, PyLDLoader()])
            prior = Quad(NamedNode("http://prior/"), NamedNode("http://prior/p"), BlankNode(), BlankNode())
            sink = Dataset()
            sink.add(prior)
            log = []

            def judge(got, ex, want, obj, what):
                c.add("traces_validated_against_impl")
                if ex is not None or not isinstance(got, Dataset) or iso(observed(got), want) is None or len(list(got)) != len(want):
                    c.violation(what, {"document": obj, "earlier": log[-3:], "error": ex, "expected": sorted(want), "got": None if got is None else sorted(observed(got))})
            used = False
            for kind, d in plan:
                if kind in ("bad", "text"):
                    if kind == "bad": got, ex = vf.outcome(parser.parse_json, copy.deepcopy(d))
                    else: got, ex = vf.outcome(parser.document.parse, d)
                    if ex is None: c.violation("an invalid document was loaded", {"document": d})
                    log.append([kind, d])
                    continue
                want = expected(ans[vf.key(d)]["out"], names)
                rend = Render(r, names, plain=r.random() < .3)
                obj = rend.document(tree(d))
                if kind == "fail":
                    s = Failing(r.randrange(0, len(want) + 2))
                    n = s.left
                    got, ex = vf.outcome(load, r, parser, obj, s)
                    if (ex is not None) != (len(want) > n): c.violation("loading into a full sink", {"document": obj, "error": ex})
                elif kind == "sink":
                    got, ex = vf.outcome(load, r, parser, obj, sink)
                    used = True
                    if ex is not None or got is not sink: c.violation("loading into a sink failed", {"document": obj, "error": ex})
                elif kind == "base":
                    if "@base" in rend.ctx or "@base" in str(obj): got, ex = vf.outcome(load, r, parser, obj, Dataset(), r.choice([{}, None]))
                    else:
                        rend = Render(r, names, plain=True)
                        rend.base = True
                        got, ex = vf.outcome(load, r, parser, rend.document(tree(d)), r.choice([None, Dataset()]), {"base": BASE})
                    judge(got, ex, want, obj, "loading gives other quads")
                elif kind == "threads":
                    # a second load on another thread while the first adds its n-th quad
                    outs = [None, None]
                    objs = [obj, Render(r, names).document(tree(d))]

                    def second(): outs[1] = vf.outcome(parser.parse_json, objs[1])
                    gate = Gate(r.randrange(0, len(want) + 1), second)
                    outs[0] = vf.outcome(parser.parse_json, objs[0], gate)
                    gate.fire()
                    for i in range(2): judge(*outs[i], want, objs[i], "loading two documents at once")
                    seen = [{x for q in o[0] for x in q if isinstance(x, BlankNode)} for o in outs if o[0] is not None]
                    if len(seen) == 2 and seen[0] & seen[1]: c.violation("two loads share blank nodes", {"documents": objs})
                else:
                    got, ex = vf.outcome(load, r, parser, obj)
                    judge(got, ex, want, obj, "loading gives other quads")
                log.append([kind, obj])
                if c.enough(): return
            if used:
                if prior not in sink: c.violation("loading removed a quad", {"loads": log})
                sink.remove(prior)
                judge(sink, None, expected(ans[vf.key(shared)]["out"], names), None, "loads into one sink are mixed up")
    c.parallel(part, range(8))


def run(c):
    recs = []
    for cfg in ("MCJsonLd", "MCJsonLdLists", "MCJsonLdRev"):
        res, more = vf.explore("MCJsonLd", cfg, timeout=1200)
        c.model(res)
        recs += more
    c.cov["documents_of_the_model"] = len(recs)
    for _ in range(c.pick(1, 6)):
        replay(c, recs)
    if not c.enough():
        histories(c, c.pick(300, 6000), c.pick(40, 80))


if __name__ == "__main__":
    vf.main(sys.argv[1], run)
