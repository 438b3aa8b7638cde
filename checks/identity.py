"""C29: what resources are the same as and how they show themselves, against spec/Identity.tla."""
import datetime, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Prefix, RDFEnvironment, Triple
from pymantic.rdf import List, Resource, register_class

E = "http://id.example/"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
LABEL = NamedNode("http://www.w3.org/2000/01/rdf-schema#label")
XSD = "http://www.w3.org/2001/XMLSchema#"


class Plain0(Resource):
    prefixes = {"ex": E}


class French(Plain0):
    lang = "fr"
    scalars = {"ex:p"}


@register_class(E + "TA")
class A(Resource):
    prefixes = {"ex": E}


class Sub(A):
    lang = "en-us"


CLASSES = [Resource, Plain0, French, A, Sub, List]
# names that are easily taken for each other
NAMES = [["x", "y", "x/", "X", "x#", "x y"], ["é", "e\u0301", "%C3%A9", "%c3%a9", "e", "è"], ["a%62", "ab", "ab%20", "ab ", "AB", "ab\n"], ["0", "00", "-0", "0.0", "1", "01"],
         ["日本", "日", "日本#", "日本/", "\U0001f600", "\U0001f601"]]
FULL = [lambda n: E + n, lambda n: "urn:x:" + n, lambda n: n]


class World:
    """The things of a history: made anew at each use, out of several graphs."""

    def __init__(self, r):
        self.r = r
        self.graphs = [Graph(), Graph("http://id.example/g"), RDFEnvironment().createGraph()]
        self.names = r.choice(NAMES)
        self.full = r.choice(FULL)
        self.blanks = {}
        self.others = {"none": None, "five": 5, "pair": ("a", "b"), "triple": Triple(NamedNode(E + "x"), LABEL, Literal("x")), "flag": True, "set": frozenset(["x"])}
        for g in self.graphs:
            for n in self.names:
                if r.random() < .3: g.add(Triple(NamedNode(self.full(n)), NamedNode(RDF + "type"), NamedNode(E + "TA")))

    def blank(self, n):
        if n not in self.blanks: self.blanks[n] = self.r.choice([BlankNode, RDFEnvironment().createBlankNode])()
        return self.blanks[n]

    def text(self, n): return "".join(list(self.full(n)))

    def make(self, x):
        """A new Python object for a thing."""
        r, h, n = self.r, x["h"], x["n"]
        if h == "text": return self.text(n)
        if h == "iri": return r.choice([NamedNode, NamedNode, Prefix])(self.text(n))
        if h == "lit": return Literal(self.text(n))
        if h == "bn": return self.blank(n)
        if h == "other": return self.others[n]
        g, k = r.choice(self.graphs), r.randrange(5)
        cls = CLASSES[x["c"]] if isinstance(x["c"], int) else r.choice(CLASSES)
        if h == "bres": s = self.blank(n)
        else: s = r.choice([lambda: self.text(n), lambda: NamedNode(self.text(n)), lambda: Prefix(self.text(n))])()
        if k == 0: return Resource.classify(g, s if not isinstance(s, str) else NamedNode(s))
        if k == 1: return cls(g, s).as_(r.choice(CLASSES))
        if k == 2: return Plain0(g, s).copy(s) if not isinstance(s, str) else Plain0(g, "urn:nowhere").copy(s)
        return cls(g, s)

    def thing(self, simple=False):
        r = self.r
        h = r.choice(["res", "res", "res", "iri", "text", "bres", "bres", "bn", "lit"] + ([] if simple else ["other"]))
        n = r.choice(self.names[:3] if r.random() < .7 else self.names)
        if h in ("bres", "bn"): n = r.choice("abc")
        if h == "other": n = r.choice(sorted(self.others))
        return {"h": h, "n": n, "c": r.randrange(len(CLASSES))}


def tables(c):
    """Walks over TLC's tables."""
    res, recs = vf.explore("MCIdentity", timeout=600)
    c.model(res)
    obs = {vf.canon(x["s"]): x["m"] for x in recs if "s" in x}
    things = next(x["x"] for x in recs if "s" in x)
    trans = [(vf.canon(x["f"]), x["a"], vf.canon(x["t"])) for x in recs if "f" in x]
    walks = list(vf.edge_cover(trans, vf.canon([]), c.rng, 80))
    c.cov["table_calls_replayed"] = len(trans)

    def part(c, k):
        r = c.rng
        for walk in walks[k::8]:
            w = World(r)
            ren = dict(zip("xy", r.sample(w.names, 2)), b="b")
            xs = [dict(t, n=ren[t["n"]], c=r.randrange(len(CLASSES))) for t in things]
            kept = {}

            def it(i): return kept.setdefault(i, w.make(xs[i])) if r.random() < .4 else w.make(xs[i])
            d, log = {}, []
            for _, a, t in walk:
                log.append([a[0], xs[a[1] - 1]] + a[2:])
                if a[0] == "put": _, ex = vf.outcome(d.__setitem__, it(a[1] - 1), a[2])
                else: _, ex = vf.outcome(d.__delitem__, it(a[1] - 1))
                c.add("traces_validated_against_impl")
                if ex is not None: c.violation("a table of resources fails", {"calls": log[-8:], "error": ex}); return
                for i in range(len(xs)):
                    y = it(i)
                    got = [d[y]] if y in d else []
                    if got != obs[t][i]: c.violation("a table finds another entry", {"calls": log[-8:], "asked": xs[i], "want": obs[t][i], "got": got})
                    if (y in list(d)) is not bool(obs[t][i]): c.violation("a list finds another entry", {"calls": log[-8:], "asked": xs[i]})
                if c.enough(): return
        c.sample({"table": [list(map(str, x)) for x in log[-3:]]})
    c.parallel(part, range(8))


LANGS = ["en", "en", "en-us", "en-gb", "fr", "fr-ca", "de"]


def labels(r, w):
    t = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5])):
        k = r.random()
        v = r.choice(["label", "Étiquette", "", "x", "5", " a\nb", "\U0001f600"])
        t.append(Literal(v, r.choice(LANGS)) if k < .5 else Literal(v) if k < .65 else Literal(v, None, NamedNode(XSD + "string2")) if k < .75 else
                 Literal(datetime.datetime(2020, 1, 2)) if k < .8 else Literal(5) if k < .85 else r.choice([NamedNode(E + "l1"), NamedNode(E + "l2"), w.blank("a")]))
    return t


def lang(s):
    if not s: return []
    a, _, b = s.partition("-")
    return [a, b]


def rec(t):
    if isinstance(t, Literal): return {"k": "l", "v": t.value, "g": lang(t.language), "d": str(t.datatype or "")}
    return {"k": "r", "v": str(t), "g": [], "d": ""}


def history(r, n):
    w = World(r)
    d, ev, kept = {}, [], []
    for _ in range(n):
        op = r.choice(["same", "same", "same", "put", "put", "get", "drop", "distinct", "find", "show", "show", "show", "view"])
        e = {"op": op}
        x = w.thing(op in ("show", "view"))
        ob = w.make(x)
        if kept and r.random() < .3: x, ob = r.choice(kept)
        kept.append((x, ob))
        e["a"] = x
        if op == "same":
            y, o2 = r.choice(kept) if r.random() < .4 else (None, None)
            if y is None: y = w.thing(); o2 = w.make(y)
            e.update(b=y, eq=(ob == o2) is True, ne=(ob != o2) is True, hash=False)
            try: e["hash"] = hash(ob) == hash(o2)
            except TypeError: pass
        elif op == "put":
            e["v"] = r.randrange(1, 9)
            d[ob] = e["v"]
            e["size"] = len(d)
        elif op == "drop":
            e["ex"] = vf.outcome(d.__delitem__, ob)[1] or ""
            e["size"] = len(d)
        elif op == "get":
            e["held"] = ob in d
            e["v"] = d[ob] if e["held"] else 0
        elif op in ("distinct", "find"):
            e["xs"] = [w.thing() for _ in range(r.randrange(8))]
            obs = [w.make(y) for y in e["xs"]]
            if op == "distinct": e["count"] = len(set(obs)) if r.random() < .5 else len(frozenset(obs))
            else:
                try: e["v"] = obs.index(ob) + 1
                except ValueError: e["v"] = 0
                if (ob in tuple(obs)) is not bool(e["v"]): e["v"] = -1
        elif op == "show":
            s = r.choice(["res", "res", "bres"])
            g = Graph()
            sub = w.blank("s") if s == "bres" else NamedNode(w.text(r.choice(w.names)))
            ob = r.choice(CLASSES[:5])(g, sub)
            if r.random() < .3: ob = ob.as_(r.choice(CLASSES[:5]))
            early = r.random() < .4
            if early: vf.outcome(str, ob)
            for o in labels(r, w): g.add(Triple(sub, LABEL, o))
            for o in labels(r, w):
                if r.random() < .5: g.add(Triple(NamedNode(E + "l1"), LABEL, o))
                if r.random() < .5: g.add(Triple(sub, NamedNode(r.choice([E + "label", str(LABEL) + "s", str(LABEL).upper()])), o))
            before = set(g)
            k = r.randrange(4)
            text, ex = vf.outcome([str, "{}".format, lambda o: "%s" % o, lambda o: f"{o}"][k], ob)
            e.update(G=[["s" if t.subject == sub else "-", "label" if t.predicate == LABEL else str(t.predicate), rec(t.object)] for t in before], s="s", own=lang(type(ob).lang), subject=str(sub),
                     text=text if isinstance(text, str) else "?" + repr(text), ex=ex or "", same=set(g) == before)
        elif op == "view":
            g = r.choice(w.graphs)
            sub = w.blank("a") if r.random() < .4 else r.choice([NamedNode, str, Prefix])(w.text(r.choice(w.names)))
            one = r.choice(CLASSES)(g, sub)
            two = one.as_(r.choice(CLASSES))
            cls = r.choice(CLASSES)
            three = two.as_(cls)
            e["ok"] = type(three) is cls and three.graph is g and three.subject == one.subject == sub and type(one) is not None and isinstance(three.subject, (NamedNode, BlankNode)) and \
                (not isinstance(sub, BlankNode) or three.subject is sub) and three == one and not three != two and str(sub) in repr(three)
        ev.append(e)
    return {"ev": ev}


def run(c):
    tables(c)
    if c.enough(): return
    n, _ = c.pick((60, 0), (500, 0))
    import tempfile
    d = tempfile.mkdtemp(prefix="vf_id_")
    try:
        def part(c, k):
            with open(os.path.join(d, "t%d" % k), "w") as f:
                for _ in range(n): f.write(json.dumps(history(c.rng, c.rng.choice([5, 30, 60]))) + "\n")
        c.parallel(part, range(8))
        traces = []
        for p in sorted(os.listdir(d)):
            with open(os.path.join(d, p)) as f: traces += [json.loads(x) for x in f]
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    if c.violations: return
    res, bad = vf.validate("TraceIdentity", traces, timeout=2000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    for t, i, clause in bad:
        c.violation("a recorded call disagrees with the specification (%s: %s)" % (traces[t]["ev"][i]["op"], clause), traces[t]["ev"][i])
        if c.enough(): break
    c.sample({"history": [e["op"] for e in traces[0]["ev"]][:12]})


if __name__ == "__main__":
    vf.main(sys.argv[1], run)
