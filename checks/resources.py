"""C14, C15, C16: the resource layer against spec/ResourceKeys.tla."""
import datetime, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple
from pymantic.rdf import List, Resource, register_class

XSD = "http://www.w3.org/2001/XMLSchema#"
E = "http://res.example/"
RT = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
PREDS = {"p": E + "p", "q": E + "P", "label": "http://www.w3.org/2000/01/rdf-schema#label", "type": RT}
NAMES = {v: k for k, v in PREDS.items()}


class Plain0(Resource):
    prefixes = {"ex": E}


class Scalar1(Resource):
    prefixes = {"ex": E}
    scalars = {"ex:p", "ex:P"}


def speaking(tag):
    """The scalar class whose language this is."""
    return Scalar1 if tag == "en" else SPEAKERS.setdefault(tag, type(Scalar1)("Scalar_" + tag, (Scalar1,), {"lang": tag}))


SPEAKERS = {}


@register_class(E + "TA")
class A(Resource):
    prefixes = {"ex": E}


@register_class(E + "TB")
class B(A):
    scalars = {"ex:P"}


@register_class(E + "TC")
class C(Resource):
    pass


class Walker(Plain0):
    """A class of its own ways, as rdf.List is."""
    def __iter__(self): return iter(["step"])
    def __str__(self): return "walker"


class Cells(List):
    prefixes = {"ex": E}


class Unregistered(Plain0):
    rdf_classes = frozenset([NamedNode(E + "TU")])


class Multi(Plain0):
    rdf_classes = frozenset([NamedNode(E + "TA"), NamedNode(E + "TC")])


class Multi3(Plain0):
    rdf_classes = frozenset([NamedNode(E + "TA"), NamedNode(E + "TC"), NamedNode(E + "TU")])


CLASSES = {"A": A, "B": B, "C": C}
KEYCLASSES = {"A": A, "B": B, "C": C, "Resource": Resource}


def lang(s):
    if not s: return []
    a, _, b = s.partition("-")
    return [a, b]


class Names:
    """Names of nodes: IRIs of the example namespace by their rest, blank nodes numbered."""

    def __init__(self):
        self.bn = {}
        self.terms = {}

    def node(self, t):
        if isinstance(t, BlankNode):
            n = self.bn.setdefault(t, "_%d" % len(self.bn))
        elif isinstance(t, NamedNode):
            n = NAMES.get(str(t)) or (str(t)[len(E):] if str(t).startswith(E) else "<%s>" % t)
        else:
            n = "?" + repr(t)[:40]
        self.terms.setdefault(n, t)
        return n

    def rec(self, t):
        if isinstance(t, Literal):
            return {"k": "l", "v": t.value, "g": lang(t.language), "d": str(t.datatype or "")}
        return {"k": "r", "v": self.node(t), "g": [], "d": ""}

    def graph(self, g):
        return [[self.node(t.subject), NAMES.get(str(t.predicate), str(t.predicate)), self.rec(t.object)] if isinstance(t, Triple)
                else ["?", repr(t)[:80], {"k": "?", "v": "", "g": [], "d": ""}] for t in g]

    def result(self, x, g=None):
        """A returned object: its term and, of a resource, the registered classes it is an instance of."""
        if isinstance(x, Resource):
            ok = type(x) is not Resource or not [c for c in CLASSES.values() if isinstance(x, c)]
            d = {"o": self.rec(x.subject), "c": [n for n, c in CLASSES.items() if isinstance(x, c)]}
            if not ok or (g is not None and x.graph is not g): d["c"] = ["?"]
            return d
        if isinstance(x, Literal):
            return {"o": self.rec(x), "c": []}
        return {"o": {"k": "?", "v": repr(x)[:60], "g": [], "d": ""}, "c": []}


def pykey(r, k):
    """A Python key for the specification's key."""
    iri = PREDS[k["p"]]
    p = r.choice([iri, NamedNode(iri), {"p": "ex:p", "q": "ex:P", "label": "rdfs:label", "type": "rdf:type"}[k["p"]]])
    f = k["f"]
    if f == "plain": return p
    if f == "all": return (p, None)
    if f == "lang": return (p, "-".join(x for x in k["x"] if x))
    if f == "dt": return (p, NamedNode(k["x"]))
    if f == "class": return (p, KEYCLASSES[k["x"]])
    return (p, r.choice(["", NamedNode(XSD + "string")]))


# (a language, two of its varieties, another language, a further one), the text of the first literals, of the
# others in a language, of the plain one, of the typed ones and of an assigned one, another datatype, resources
VARIANTS = [(("en", "en-us", "en-gb", "fr", "de-at"), "a", "b", "a", "5", "s", "integer", "xyz"),
            (("en", "en-us", "en-us-posix", "en1", "de-at"), "5", "5", "5", "5", "5 ", "decimal", ["x", "x/", "X"]),
            (("en", "en-US", "en-us", "EN", "EN-US"), "a", "b", "a", "5", "s", "integer", "xyz"),
            (("zh", "zh-hant", "zh-hant-tw", "zhx", "yue-hant"), "é", "e\u0301", "", "05", "É", E + "metre", ["x", "x#", "x%2F"]),
            (("de", "de-at", "de-at-1996", "d", "at"), "a", "A", " a", "5", "a\n", "string#", ["a", "ab", "a%62"]),
            (("sl", "sl-rozaj", "sl-rozaj-biske", "s", "sl1-rozaj"), "", " ", "0", "", "true", "urn:xsd", ["é", "e\u0301", "%C3%A9"])]
DATE = datetime.datetime(2020, 1, 2, 3, 4, 5)


class Terms:
    """The terms a run works with, in one of the variants."""

    def __init__(self, r):
        (en, us, gb, fr, de), a, b, bare, num, more, dt, names = VARIANTS[r % len(VARIANTS)] if isinstance(r, int) else r.choice(VARIANTS)
        L, I = Literal, lambda x: NamedNode(x if ":" in x else XSD + x)
        self.b = BlankNode()
        self.x, self.y, self.z = [NamedNode(E + i) for i in names]
        self.other = "other" if dt != "decimal" else "S"
        self.list = [L(a, en), L(a, us), L(b, gb), L(a, fr), L(bare), L(num, None, I("integer")),
                     L(num if dt != "integer" else "6", None, I(dt)), L(DATE), self.x, self.y, self.z, self.b]
        # what only assignments bring
        self.langs = [en, us, fr, de] + ([gb] if gb.count("-") == 2 else [])
        self.more = [L(more, x) for x in self.langs] + [L(more), L(more, None, I("integer")), L(more, None, I("dateTime"))]
        self.text = more
        self.int = int(num) if num == "5" else 5
        if num != "5": self.more.append(L(5))
        self.types = [(self.x, "TA"), (self.y, "TB"), (self.b, "TC")]
        self.tags = [en, us, fr]     # languages of resources
        self.keys = [{"p": "p", "f": f, "x": ""} for f in ("plain", "all", "empty")] + \
            [{"p": "p", "f": "lang", "x": lang(x)} for x in self.langs] + \
            [{"p": "p", "f": "dt", "x": XSD + x} for x in ("integer", "dateTime")] + \
            [{"p": "p", "f": "class", "x": x} for x in ("A", "B", "C", "Resource")]
        assert len(set(self.list + self.more)) == len(self.list + self.more)


def term_item(n, o): return {"f": "term", "o": n.rec(o), "c": []}


def values(t, n, classes=KEYCLASSES):
    """[(items for the specification, collection?, maker of the Python value)]"""
    single = []
    for o in t.list:
        single.append((term_item(n, o), lambda g, o=o: o))
    single.append(({"f": "str", "o": {"v": t.text}, "c": []}, lambda g: t.text))
    single.append(({"f": "term", "o": n.rec(Literal(t.int)), "c": []}, lambda g: t.int))
    single.append(({"f": "term", "o": n.rec(t.list[7]), "c": []}, lambda g: DATE))
    for o, cls, names in [(t.list[8], Resource, []), (t.list[10], A, ["A"]), (t.list[9], B, ["A", "B"]), (t.b, C, ["C"]), (t.list[8], Plain0, []), (t.list[8], Cells, []), (t.b, Walker, [])]:
        single.append(({"f": "res", "o": n.rec(o), "c": names + ["Resource"]}, lambda g, o=o, cls=cls: cls(g, o)))
    out = [([i], False, m) for i, m in single]
    for kind in (list, tuple, set, frozenset):
        out.append(([], True, lambda g, k=kind: k()))
    combos = [(0, 3), (8, 10), (9, 11), (12,), (5, 6), (0, 1), (4, 12), (0, 8), (5, 7), (13, 8), (8, 16), (17, 8), (4, 5), (10, 15), (8,), (0,), (4,), (3, 3)]
    for i, co in enumerate(combos):
        kind = (list, tuple, set, frozenset)[i % 4]
        out.append(([single[j][0] for j in co], True, lambda g, co=co, k=kind: k(single[j][1](g) for j in co)))
    return out


def build(t, has, subject):
    g = Graph()
    for i in has:
        g.add(Triple(subject, NamedNode(PREDS["p"]), t.list[i]))
    rest = [Triple(s, NamedNode(RT), NamedNode(E + c)) for s, c in t.types]
    rest += [Triple(subject, NamedNode(PREDS["q"]), o) for o in t.list[:9:2]] + [Triple(NamedNode(E + t.other), NamedNode(PREDS["p"]), o) for o in t.list[1::2]]
    for x in rest: g.add(x)
    return g, set(rest)


def exhaustive(c, prop, variant):
    """Every key, and for C15 every value, on contents of a predicate: all of them (thorough) or a sample."""
    t, n = Terms(variant), Names()
    first = variant == c.seed % len(VARIANTS)
    universe = t.list + t.more
    vals = values(t, n)
    ops = {"terms": [n.rec(o) for o in universe], "types": [[n.node(s), n.rec(NamedNode(E + x))] for s, x in t.types], "keys": t.keys,
           "vals": [{"its": its, "coll": coll} for its, coll, _ in vals] if prop == "C15" else []}
    en, us, fr = map(lang, t.tags)
    d = vf.tempfile.mkdtemp(prefix="vf_ops_")
    nt = len(t.list)
    contents = [[i for i in range(nt) if m >> i & 1] for m in range(1 << nt)]
    few, many = [x for x in contents if len(x) <= 2], [x for x in contents if len(x) > 2]
    if prop == "C15": k = c.pick(150 if first else 30, 4017 if first else 600)
    else: k = c.pick(600 if first else 150, 4017)
    contents = (few if c.thorough() or first else c.rng.sample(few, 30)) + (many if k == 4017 else c.rng.sample(many, k))
    try:
        with open(os.path.join(d, "ops"), "w") as f: f.write(json.dumps(ops) + "\n")
        inputs = [{"has": [i + 1 for i in x], "sc": sc, "own": own} for x in contents for sc in (False, True)
                  for own in ((en,) if not sc or prop == "C15" and c.rng.random() < .6 else (en, fr) if c.rng.random() < .5 else (us,))]
        res, ans = vf.evaluate("EvalResourceKeys", inputs, env={"OPS": os.path.join(d, "ops")}, timeout=3000)
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.model(res)
    subject = [NamedNode(E + "s"), BlankNode()]
    pred = NamedNode(PREDS["p"])

    def has(g, s):
        return sorted(universe.index(x.object) + 1 if x.object in universe else 99 for x in g.match(s, pred, None))

    def one(c, e, a):
        s = c.rng.choice(subject)
        cls = Plain0 if not e["sc"] else speaking("-".join(x for x in e["own"] if x))
        for k, ka in zip(t.keys, a):
            g, rest = build(t, [i - 1 for i in e["has"]], s)
            key = pykey(c.rng, k)
            info = {"objects": [repr(universe[i - 1]) for i in e["has"]], "scalar": e["sc"], "language": e["own"], "key": repr(key)}
            r = cls(g, s if c.rng.random() < .7 or isinstance(s, BlankNode) else str(s))
            if prop == "C14":
                den = [universe[i - 1] for i in ka["den"]]
                c.add("traces_validated_against_impl", 3)
                v, ex = vf.outcome(r.__getitem__, key)
                if ex is None and not ka["one"]: v, ex = vf.outcome(list, v)
                if ka["one"]:
                    if len(den) > 1:
                        if ex != "ValueError": c.violation("ambiguous scalar read without ValueError", dict(info, got=repr(v), error=ex))
                        v = []
                    elif ex is not None: c.violation("reading a scalar raised", dict(info, error=ex))
                    else: v = [] if v is None else [v]
                    if c.rng.random() < .3:
                        w, ex2 = vf.outcome(r.get_scalar, key)
                        if (ex2 == "ValueError") != (len(den) > 1) or (ex2 is None and [x.subject if isinstance(x, Resource) else x for x in ([] if w is None else [w])] != den):
                            c.violation("get_scalar differs from the key", dict(info, got=repr(w), error=ex2))
                elif ex is not None: c.violation("reading raised", dict(info, error=ex))
                if ex is None:
                    got = [x.subject if isinstance(x, Resource) else x for x in v]
                    if len(got) != len(den) or set(got) != set(den) or any((type(a) is type(b)) is False for a, b in zip(sorted(got, key=repr), sorted(den, key=repr))):
                        c.violation("reading gives other objects", dict(info, want=repr(den), got=repr(got)))
                    for x in v:
                        if isinstance(x, (NamedNode, BlankNode)): c.violation("a reference is not given as a resource", info)
                b, ex = vf.outcome(r.__contains__, key)
                if ex is not None or b is not bool(den): c.violation("the membership test is wrong", dict(info, want=bool(den), got=repr(b), error=ex))
                if set(g) - rest != {Triple(s, pred, universe[i - 1]) for i in e["has"]}: c.violation("reading changed the graph", info)
                _, ex = vf.outcome(r.__delitem__, key)
                if ex is not None or has(g, s) != sorted(ka["left"]) or not rest <= set(g) or len(g) != len(rest) + len(ka["left"]):
                    c.violation("deleting removed other objects", dict(info, want=repr([universe[i - 1] for i in ka["left"]]), got=repr(list(g.match(s, pred, None))), error=ex))
            else:
                for (its, coll, mk), sa in zip(vals, ka["set"]):
                    if c.tier == "quick" and c.rng.random() < .5: continue
                    c.add("traces_validated_against_impl")
                    g, rest = build(t, [i - 1 for i in e["has"]], s)
                    r = cls(g, s)
                    v = mk(g)
                    was = repr(v)
                    _, ex = vf.outcome(r.__setitem__, key, v)
                    want = sorted(sa["has"]) if sa["ok"] else sorted(e["has"])
                    if (ex or "") != ("" if sa["ok"] else "ValueError"):
                        c.violation("assignment %s" % ("refused" if sa["ok"] else "of an unfit value"), dict(info, value=was, error=ex))
                    elif has(g, s) != want or not rest <= set(g) or len(g) != len(rest) + len(want):
                        c.violation("assignment left other objects", dict(info, value=was, want=repr([universe[i - 1] for i in want]), got=repr(list(g.match(s, pred, None))), others=not rest <= set(g)))
                    elif repr(v) != was: c.violation("assignment changed the value", dict(info, value=was))
                    if c.enough(): return
            if c.enough(): return

    def run(c, k):
        for e, a in list(zip(inputs, ans))[k::16]:
            one(c, e, a)
            if c.enough(): return
        c.sample({"has": e["has"], "scalar": e["sc"], "denoted": [x["den"] for x in a]})
    c.parallel(run, range(16))
    c.add("contents", len(inputs))


# ---- recorded histories -------------------------------------------------------------------------

def select(r, t, p):
    """A call of one of the selectors: its name, its argument for the specification, and the call."""
    sel = r.choice(["objects", "bare", "lang any", "lang", "dt any", "dt", "class any", "class"])
    if sel == "objects": return sel, "none", lambda x: x.objects(p)
    if sel == "bare": return sel, "none", lambda x: x.bare_literals(p)
    if sel == "lang any": return sel, "none", r.choice([lambda x: x.objects_by_lang(p), lambda x: x.objects_by_lang(p, None)])
    if sel == "dt any": return sel, "none", lambda x: x.objects_by_datatype(p)
    if sel == "class any": return sel, "none", lambda x: x.objects_by_type(p)
    if sel == "lang":
        a = r.choice(t.tags + t.langs + [""])
        return sel, lang(a), lambda x: x.objects_by_lang(p, a)
    if sel == "dt":
        a = r.choice([o.datatype for o in t.list if isinstance(o, Literal) and o.datatype] + [""])
        return sel, str(a), lambda x: x.objects_by_datatype(p, a)
    a = r.choice(sorted(KEYCLASSES))
    return sel, a, lambda x: x.objects_by_type(p, KEYCLASSES[a])


def history(r, prop, length):
    """Record a random history of calls on one graph."""
    g, n = Graph(), Names()
    t = Terms(r)
    nodes = [NamedNode(E + "s"), t.x, t.y, t.z, t.b, BlankNode()]
    preds = list(PREDS.values())
    lits = [o for o in t.list if isinstance(o, Literal)]
    vals = values(t, n)
    for _ in range(r.randrange(12)):
        g.add(Triple(r.choice(nodes), NamedNode(r.choice(preds[:3])), r.choice(lits + nodes)))
    for _ in range(r.randrange(6)):
        g.add(Triple(r.choice(nodes), NamedNode(RT), NamedNode(E + r.choice(["TA", "TB", "TC", "TU"]))))
    if r.random() < .06:
        nodes += [r.choice([BlankNode, lambda: NamedNode(E + "m%d" % r.randrange(99))])() for _ in range(40)]
        for _ in range(150):
            g.add(Triple(r.choice(nodes), NamedNode(r.choice(preds[:2])), r.choice(lits + nodes)))
        for _ in range(60):
            g.add(Triple(r.choice(nodes), NamedNode(RT), NamedNode(E + r.choice(["TA", "TB", "TC", "TU"]))))
        length = 8
    kept = {}       # resources that stay in use
    ev = []
    weights = {"C14": "read read read in del set select select", "C15": "set set set set read del", "C16": "new erase copy isa instances pointers allpointers pairs new copy set"}[prop].split()
    for _ in range(length):
        x = r.random()
        if x < .12:      # changes behind the resources' back
            s = r.choice(nodes)
            if r.random() < .6: g.add(Triple(s, NamedNode(RT), NamedNode(E + r.choice(["TA", "TB", "TC", "TU"]))))
            else:
                for tr in list(g.match(s, NamedNode(RT), None))[:1]: g.remove(tr)
            continue
        op = r.choice(weights)
        s = r.choice(nodes)
        cls = r.choice([Plain0, B] + [speaking(x) for x in t.tags])
        res = cls(g, s)
        if op in ("erase", "copy", "pointers", "allpointers") and r.random() < .2: res = r.choice([Cells, Walker])(g, s)
        elif r.random() < .7: res = kept.setdefault((cls, s), res)
        own = lang(cls.lang)
        if cls not in (Plain0, B) and r.random() < .1:      # one that speaks another language than its class
            res = cls(g, s)
            res.lang = r.choice(t.tags)
            own = lang(res.lang)
        e = {"op": op, "s": n.node(s), "G": n.graph(g), "ex": "", "vals": [], "b": False}
        if op in ("read", "in", "del", "set"):
            k = dict(r.choice(t.keys), p=r.choice(["p", "p", "q", "label"] + (["type"] if op in ("read", "in") else [])))
            e["k"], e["own"] = k, own
            e["sc"] = NamedNode(PREDS[k["p"]]) in cls.scalars if k["p"] != "label" else True
            key = pykey(r, k)
        if op == "read":
            v, ex = vf.outcome(res.__getitem__, key)
            if ex is None:
                v = list(v) if not (e["sc"] and k["f"] != "all") else [] if v is None else [v]
                e["vals"] = [n.result(x, g) for x in v]
            e["ex"] = ex or ""
        elif op == "select":
            e["p"] = r.choice(["p", "p", "q", "label", "type"])
            e["sel"], e["x"], call = select(r, t, NamedNode(PREDS[e["p"]]))
            v, ex = vf.outcome(lambda: call(res))
            e["ex"] = ex or ""
            if ex is None: e["vals"] = [{"o": n.rec(x), "c": []} for x in v]
        elif op == "in":
            b, ex = vf.outcome(res.__contains__, key)
            e["b"], e["ex"] = bool(b) if isinstance(b, bool) else "?", ex or ""
        elif op == "del":
            e["ex"] = vf.outcome(res.__delitem__, key)[1] or ""
        elif op == "set":
            its, coll, mk = r.choice(vals)
            e["its"], e["coll"] = its, coll
            e["ex"] = vf.outcome(res.__setitem__, key, mk(g))[1] or ""
        elif op == "new":
            kind = r.choice([A, B, C, Multi, Multi3, Unregistered, Plain0])
            e["tys"] = [n.node(x) for x in kind.rdf_classes]
            e["fresh"] = r.random() < .4
            if e["fresh"]: new = kind.new(g)
            else: new = kind.new(g, r.choice([s, str(s)]) if isinstance(s, NamedNode) else s)
            e["s"] = n.node(new.subject)
            e["b"] = type(new) is kind and new.graph is g and (e["fresh"] and isinstance(new.subject, BlankNode) or new.subject == s)
            if e["fresh"]: nodes.append(new.subject)
        elif op == "erase":
            e["ex"] = vf.outcome(res.erase)[1] or ""
        elif op == "copy":
            to = r.choice(nodes + [BlankNode(), NamedNode(E + "new%d" % r.randrange(5))])
            e["to"] = n.node(to)
            v, ex = vf.outcome(res.copy, r.choice([to, str(to)]) if isinstance(to, NamedNode) else to)
            e["ex"] = ex or ""
            if ex is None: e["vals"] = [n.result(v, g)]
        elif op in ("isa", "instances"):
            kind = r.choice([A, B, C, Multi, Multi3, Unregistered])
            if r.random() < .3:     # the class made for a node of several types
                k2 = type(Resource.classify(g, s))
                if len(k2.rdf_classes) > 0: kind = k2
            e["tys"] = [n.node(x) for x in kind.rdf_classes]
            if op == "isa":
                b, ex = vf.outcome(kind(g, s).is_a)
                e["b"], e["ex"] = b if isinstance(b, bool) else "?", ex or ""
            else:
                v = list(kind.in_graph(g))
                e["vals"] = [{"o": n.rec(x.subject) if type(x) is kind and x.graph is g else {"k": "?", "v": "", "g": [], "d": ""}, "c": []} for x in v]
        elif op == "pointers":
            p = r.choice(["p", "q", "label"])
            e["p"] = p
            e["vals"] = [n.result(x, g) for x in res.object_of(pykey(r, {"p": p, "f": "plain"}) if r.random() < .8 else NamedNode(PREDS[p]))]
        elif op == "allpointers":
            e["vals"] = [dict(n.result(x, g), p=NAMES.get(str(p), str(p))) for x, p in res.object_of()]
        elif op == "pairs":
            e["vals"] = [{"p": NAMES.get(str(p), str(p)), "o": n.rec(o), "c": []} for p, o in res]
        e["H"] = n.graph(g)
        ev.append(e)
    return {"ev": ev}


def histories(c, prop, count, length):
    # recorded in worker processes (registrations stay there), judged together
    c.parallel(lambda c, k: _rec(c, k, prop, count // 8, length), range(8))
    traces = []
    for p in sorted(os.listdir(_DIR[0])):
        with open(os.path.join(_DIR[0], p)) as f: traces += [json.loads(x) for x in f]
    vf.shutil.rmtree(_DIR[0], ignore_errors=True)
    if c.violations: return
    res, bad = vf.validate("TraceResource", traces, timeout=3000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    c.cov["calls_recorded"] = sum(len(t["ev"]) for t in traces)
    own = {"C14": ["read", "in", "del", "select"], "C15": ["set"]}.get(prop, ["new", "erase", "copy", "isa", "instances", "pointers", "allpointers", "pairs"])
    for t, i, clause in bad:
        e = dict(traces[t]["ev"][i])
        if e["op"] not in own: continue      # another property's
        if c.enough(): break
        c.violation("a recorded call disagrees with the specification (%s: %s)" % (e["op"], clause), e)
    c.sample({"history": [e["op"] for e in traces[0]["ev"]][:12]})


_DIR = [None]


def _rec(c, k, prop, count, length):
    with open(os.path.join(_DIR[0], "t%d" % k), "w") as f:
        for _ in range(count):
            f.write(json.dumps(history(c.rng, prop, length)) + "\n")


def run(c, prop):
    c.model(vf.tlc_ok(vf.tlc("MCResourceKeys"), "MCResourceKeys"))
    if prop != "C16":
        for v in range(len(VARIANTS)):
            exhaustive(c, prop, v)
            if c.enough(): return
    _DIR[0] = vf.tempfile.mkdtemp(prefix="vf_hist_")
    histories(c, prop, c.pick(160 if prop != "C16" else 320, 2400), 25)


if __name__ == "__main__":
    prop = sys.argv[1]
    vf.main(prop, lambda c: run(c, prop))
