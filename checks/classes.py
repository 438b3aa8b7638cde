"""C17, C18: classification and class definitions against spec/Classify.tla and spec/ClassDefs.tla."""
import functools, itertools, json, os, random, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Prefix, PrefixMap, Profile, Triple
from pymantic.rdf import Resource, register_class

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RDFS = "http://www.w3.org/2000/01/rdf-schema#"
TYPE = NamedNode(RDF + "type")
Meta = type(Resource)
_n = itertools.count()


def fresh(r, name):
    """A type never seen before, its hash and order as random as it gets."""
    return "http://t%d.example/%s%d" % (r.randrange(1000), name, next(_n))


def near(r, iri):
    """Another type, nearly the same."""
    k = r.randrange(7)
    if k == 0: return iri + "/"
    if k == 1: return iri + "#"
    if k == 2: return iri.replace("http:", "https:", 1)
    if k == 3: return iri.replace("example", "EXAMPLE", 1)
    if k == 4: return iri[:-1] + "%%%02X" % ord(iri[-1])
    if k == 5: return iri.replace("example/", "example/./", 1)
    return "http://" + iri[7:].swapcase()


def orderly(bases):
    """Python can put these bases into one order."""
    try: functools._c3_merge([list(b.__mro__) for b in bases] + [list(bases)])
    except RuntimeError: return False
    return True


# ---- C17 -----------------------------------------------------------------------------------------

BASES = {"C1": (), "C2": (), "C3": ("C1",), "C4": ("C2", "C1"), "C5": ("C3",)}


def make_classes(r, bases):
    """Classes of their own names, of names that run into one another, or all of one name."""
    out = {}
    how = r.randrange(4)
    for i, (c, bs) in enumerate(bases.items()):
        name = [c, "K" * (i + 1), "Thing", "A_%s" % ("B" if i % 2 else "B_A")][how]
        out[c] = Meta(name, tuple(out[b] for b in bs) or (Resource,), {})
    return out


class Registry:
    def __init__(self, r, bases):
        self.r, self.classes, self.types = r, make_classes(r, bases), {}
        self.graphs = [Graph(), Graph()]
        for g in self.graphs: g.add(Triple(NamedNode("http://e/o"), NamedNode("http://e/p"), Literal("x")))

    def type(self, t):
        if t not in self.types:
            # an unregistered type may be any kind of term, and any type nearly the same as another
            others = [str(o) for o in self.types.values() if isinstance(o, NamedNode)]
            iri = near(self.r, self.r.choice(others)) if others and self.r.random() < .4 else fresh(self.r, t)
            if iri in others: iri = fresh(self.r, t)
            self.types[t] = NamedNode(iri) if not t.startswith("U") else self.r.choice([NamedNode(iri), BlankNode(), Literal(self.r.choice(others + [t]))])
        return self.types[t]

    def register(self, t, c):
        register_class(self.r.choice([self.type(t), str(self.type(t))]))(self.classes[c])

    def observe(self, g, node):
        """What classifying a node gives: (instance of, plain?, same node and graph?, graph kept?)."""
        was = set(g)
        k = self.r.randrange(4)
        if k == 0: f = lambda: Resource.classify(g, node)
        elif k == 1: f = lambda: self.r.choice(list(self.classes.values())).classify(g, node)
        elif k == 2: f = lambda: Resource(g, NamedNode("http://e/any")).classify(g, node)
        else:
            link = Triple(NamedNode("http://e/s"), NamedNode("http://e/q"), node)
            g.add(link)
            was.add(link)
            f = lambda: [x for x in Resource(g, "http://e/s")["http://e/q"] if x.subject == node][0]
        x, ex = vf.outcome(f)
        if k == 3: g.remove(link); was.discard(link)
        self.order, self.isa = [], True
        if ex is not None: return ["raised " + ex], False, False, set(g) == was
        self.order = [n for k in type(x).__mro__ for n, c in self.classes.items() if k is c]
        self.isa = type(x) is Resource or type(x) in self.classes.values() or x.is_a() is True
        return (sorted(n for n, c in self.classes.items() if isinstance(x, c)), type(x) is Resource,
                isinstance(x, Resource) and x.subject == node and type(x.subject) is type(node) and x.graph is g, set(g) == was)


def replay(c):
    res, recs = vf.explore("MCClassify", c.pick("MCClassifyEmit", "MCClassifyDeep"))
    c.model(res)
    c.model(vf.tlc_ok(vf.tlc("MCClassify"), "MCClassify"))
    want = {vf.key(r["t"]): sorted(r["i"]) for r in recs}
    trans = [(vf.key(r["f"]), r["a"], vf.key(r["t"])) for r in recs]
    init = vf.key([{"T1": "none", "T2": "none", "T3": "none"}, []])
    walks = list(vf.edge_cover(trans, init, c.rng, 150))
    c.cov["replayed_transitions"] = 0

    def follow(c, walk):
        reg = Registry(c.rng, BASES)
        g = c.rng.choice(reg.graphs)
        node = c.rng.choice([BlankNode(), NamedNode("http://e/n")])
        ask = c.rng.choice([1, .5])
        log = []
        for f, a, t in walk:
            log.append(a)
            if a[0] == "register": reg.register(a[1], a[2])
            elif a[0] == "classify": pass
            elif a[0] == "add": g.add(Triple(node, TYPE, reg.type(a[1])))
            else: g.remove(Triple(node, TYPE, reg.type(a[1])))
            c.add("replayed_transitions")
            if a[0] != "classify" and c.rng.random() > ask: continue
            i, plain, same, kept = reg.observe(g, node)
            if i != want[t] or plain != (not i) or not same or not kept:
                c.violation("classification differs", {"history": log[-12:], "want": want[t], "got": i, "plain": plain, "node and graph": same, "graph kept": kept})
                return
            if c.rng.random() < .05:
                for x in (Literal("x"), Literal("5", None, NamedNode("http://e/n")), Literal("a", "en")):
                    if Resource.classify(g, x) != x: c.violation("a literal came back changed", {"literal": repr(x)})
                if Resource.classify(g, None) is not None: c.violation("None is classified", {})
                i, plain, same, kept = reg.observe(g, BlankNode())
                if i or not plain: c.violation("a node without types is classified", {"got": i})
        c.add("traces_validated_against_impl")
        c.sample({"walk": log[:6], "want": want[t]})

    def part(c, k):
        for walk in walks[k::16]:
            follow(c, walk)
            if c.enough(): return
    c.parallel(part, range(16))


def random_bases(r, n):
    """A hierarchy, bases in falling order."""
    out = {}
    for i in range(n):
        k = min(i, r.choice([0, 0, 1, 1, 2, 3]))
        bs = sorted(r.sample(range(i), k), reverse=True)
        # a class and one it derives from are not both named
        names = ["K%d" % b for b in bs]
        out["K%d" % i] = tuple(b for b in names if not any(b in above(out, o) and o != b for o in names))
    return out


def above(bases, c):
    return {c}.union(*[above(bases, b) for b in bases[c]])


def consistent(bases):
    """The hierarchy, and every combination of its classes in any order, has a method resolution order."""
    out = {}
    for c, bs in bases.items():
        if not orderly([out[b] for b in bs] or [object]): return False
        out[c] = type(c, tuple(out[b] for b in bs), {})
    for n in range(2, 6):
        for ks in itertools.permutations(out, n):
            if any(a != b and a in above(bases, b) for a in ks for b in ks): continue
            if not orderly([out[k] for k in ks]): return False
    return True


def histories(c, count, length):
    """Random histories over several nodes and graphs, judged by TraceClassify."""
    traces = []
    for _ in range(count):
        r = c.rng
        while True:
            bases = random_bases(r, r.randrange(2, 8))
            if consistent(bases): break
        reg = Registry(r, bases)
        many = r.random() < .1
        types = ["T%d" % i for i in range(r.randrange(10, 16) if many else r.randrange(1, 6))]
        some = ["U%d" % i for i in range(1, r.randrange(10, 40) if many else 3)]
        nodes = [BlankNode(), NamedNode("http://e/n"), BlankNode()]
        regs, ev = [["U1", "none"]], []
        for _ in range(length):
            x = r.random()
            g, node = r.choice(reg.graphs), r.choice(nodes)
            if x < .2:
                t, k = r.choice(types), r.choice(list(bases))
                reg.register(t, k)
                regs.append([t, k])
            elif x < .45:
                for t in r.sample(types + some, r.randrange(1, len(types + some)) if many else 1): g.add(Triple(node, TYPE, reg.type(t)))
            elif x < .6: g.removeMatches(node, TYPE, reg.type(r.choice(types + some)))
            else:
                i, plain, same, kept = reg.observe(g, node)
                has = [t for t, o in reg.types.items() if Triple(node, TYPE, o) in g]
                ev.append({"n": len(regs), "has": has, "i": i, "plain": plain, "same": same, "kept": kept, "order": reg.order, "isa": reg.isa})
        traces.append({"above": {k: sorted(above(bases, k)) for k in bases}, "regs": regs, "ev": ev})
    res, bad = vf.validate("TraceClassify", traces, timeout=2000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    for t, i, clause in bad[:4]:
        T = traces[t]
        c.violation("a recorded classification disagrees (%s)" % clause, {"registered": T["regs"][:T["ev"][i]["n"]], "derives": T["above"], "result": T["ev"][i]})


def outcomes(seed, run, count):
    """What classifying the same nodes under the same registrations gives, all of it done in the order of this run."""
    r, s = random.Random(seed), random.Random(run)
    out = []
    for n in range(count):
        k = r.randrange(2, 6)
        types = ["http://t%d.example/%d/%d" % (r.randrange(1000), n, i) for i in range(k)]
        classes = [Meta(r.choice(["K", "K%d" % i]), (Resource,), {"who": i, "lang": "l%d" % i, "prefixes": {"p": "http://p.example/%d/" % i, "p%d" % i: "urn:"}}) for i in range(k)]
        pairs = list(zip(types, classes)) + [(types[0] + "/more", classes[-1])]
        s.shuffle(pairs)
        for t, c in pairs: register_class(t)(c)
        g, node = Graph(), NamedNode("http://e/n")
        has = [t for t, c in pairs] + ["http://e/other%d" % i for i in range(r.randrange(3))]
        s.shuffle(has)
        if s.random() < .5: Resource.classify(g, NamedNode(types[0]))
        for t in has:
            g.add(Triple(node, TYPE, NamedNode(t)))
            if s.random() < .3: Resource.classify(g, node)
        x = Resource.classify(g, node)
        out.append("%s %s %s %s" % (x.who, x.lang, x.resolve("p:"), [c.who for c in type(x).__mro__ if c in classes]))
    return out


def orders(c):
    """The same classifications in several processes, each with its own hashes and order of events."""
    runs = []
    for k in range(c.pick(4, 10)):
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--outcomes", str(c.rng.randrange(10 ** 6) if not runs else runs[0][0]), str(k), str(c.pick(120, 400))],
                           env=dict(os.environ, PYTHONHASHSEED=str(c.rng.randrange(1, 4 * 10 ** 9))), capture_output=True, text=True)
        if p.returncode: return c.violation("classifying raised", {"error": p.stderr[-400:]})
        x = json.loads(p.stdout)
        runs.append(x)
    cases = [{"ev": [{"runs": list(ws)}]} for ws in zip(*[x[1] for x in runs])]
    res, bad = vf.validate("TraceClassifyRuns", cases)
    c.model(res)
    c.add("classifications_in_several_processes", len(cases))
    for t, i, clause in bad[:2]: c.violation("the outcome of classification varies", {"outcomes": cases[t]["ev"][0]["runs"]})


# ---- C18 -----------------------------------------------------------------------------------------

NS = {"v1": "http://one.example/", "v2": "http://two.example/ns#", "v3": "http://one.example/deep/", "rdf": RDF, "rdfs": RDFS, "g": "http://global.example/",
      "xsd": "http://www.w3.org/2001/XMLSchema#"}
TOK = {v: k for k, v in NS.items()}


def split(iri):
    """An IRI as [namespace token, rest]."""
    k = max(iri.rfind("/"), iri.rfind("#")) + 1
    return [TOK.get(str(iri[:k]), "?" + str(iri[:k])), str(iri[k:])]


def view(cls):
    return {"-": "none", **{str(p): TOK.get(str(v), "?" + str(v)) for p, v in cls.prefixes.items()}}


def seen(cls):
    """What there is to see of a class."""
    return (dict(cls.prefixes), set(cls.scalars), [cls.resolve(x) for x in ("rdf:type", "xsd:x")], cls.__bases__, cls.rdf_classes, cls.lang)


def define(r, name, bases, own, names, **more):
    d = dict(more)
    if own or r.random() < .3:
        kind = r.choice([dict, PrefixMap])
        d["prefixes"] = kind({p: r.choice([str, Prefix, NamedNode])(NS[v]) for p, v in own.items()})
    if names or r.random() < .3: d["scalars"] = r.choice([set, frozenset, list, tuple])("%s:%s" % tuple(n) for n in names)
    return Meta(name, tuple(bases), d)


def definitions(c):
    res, recs = vf.explore("MCClassDefs", timeout=900)
    c.model(res)
    if c.thorough():
        res, more = vf.explore("MCClassDefs", "MCClassDefsDeep", timeout=2000)
        c.model(res)
        recs += more
    c.cov["definition_histories"] = len(recs)

    def one(c, rec):
        made, before = [], []
        root = seen(Resource)
        for d in rec:
            bases = [made[i - 1] if i else Resource for i in sorted(d["bases"], reverse=True)]
            bases = [b for b in bases if not any(o is not b and issubclass(o, b) for o in bases)]
            k, ex = vf.outcome(define, c.rng, "K%d" % len(made), bases, {p: v for p, v in d["own"].items() if v != "none"}, d["names"])
            if ex is not None: return c.violation("defining a class raised", {"definitions": rec, "error": ex})
            made.append(k)
            v = view(k)
            want = {"-": "none", "rdf": "rdf", "rdfs": "rdfs", **{p: x for p, x in d["view"].items() if x != "none"}}
            if v != want: c.violation("prefixes of a class", {"definitions": rec, "class": len(made), "want": want, "got": v})
            s = sorted(split(x) for x in k.scalars)
            want = sorted([["rdfs", "label"]] + d["scalars"])
            if s != want: c.violation("scalars of a class", {"definitions": rec, "class": len(made), "want": want, "got": s})
            for p in ("x", "y", "zz", "xsd"):
                got, ex = vf.outcome(k.resolve, p + ":n")
                w = d["view"].get(p, "none") if p != "xsd" else "xsd"
                if (ex != "ValueError") if w == "none" else (ex is not None or got != NS[w] + "n"):
                    c.violation("resolution in a class", {"definitions": rec, "class": len(made), "name": p + ":n", "got": got, "error": ex})
            before.append(seen(k))
            if [seen(m) for m in made] != before or seen(Resource) != root:
                c.violation("a definition changed another class", {"definitions": rec[:len(made)]})
            if c.enough(): return
        c.add("traces_validated_against_impl")

    def part(c, k):
        for rec in recs[k::16]:
            one(c, rec)
            if c.enough(): return
        c.sample(rec)
    c.parallel(part, range(16))


def defs_history(r):
    glob = Profile()
    glob.setPrefix("gp", NS["g"])
    if r.random() < .5: glob.setPrefix("x", NS["g"])
    if r.random() < .3: glob.setPrefix("", NS["g"])
    root = Meta("Root", (Resource,), {"global_profile": glob})
    prefixes = ["x", "y", "z", "", "rdfs", "rdf", "X", "x.", "xx", "-"]
    values = ["v1", "v2", "v3"]
    made, ev, before = [], [], [seen(Resource), seen(root)]
    g = Graph()
    above_ = []
    for n in range(r.randrange(2, 9)):
        k = r.choice([0, 1, 1, 2, 2, 3])
        bs = sorted(r.sample(range(1, n + 1), min(n, k)), reverse=True)
        bs = [b for b in bs if not any(o != b and b in above_[o - 1] for o in bs)]
        # prefixes declared on classes (as on Resource in the README) that nothing derives from so far
        decl = []
        while r.random() < .3:
            k = r.choice([k for k in range(n + 1) if (n == 0 if k == 0 else not any(k in a for a in above_[k:]))])
            q, v = r.choice(prefixes[:4] + prefixes[6:9]), r.choice(values)
            m = made[k - 1] if k else root
            x, ex = vf.outcome(r.choice([m.prefixes.__setitem__, lambda q, v: m.prefixes.update({q: v}), lambda q, v: m.prefixes.addAll({q: v}, True)]), q, r.choice([Prefix, str])(NS[v]))
            assert ex is None, ex
            decl.append({"c": k, "p": q, "v": v})
            before[k + 1] = seen(m)
        now = [view(root)] + [view(m) for m in made]
        combined = None
        if len(bs) >= 2 and r.random() < .5:
            # combined by classification
            node = BlankNode()
            for b in bs:
                t = fresh(r, "D")
                register_class(t)(made[b - 1])
                g.add(Triple(node, TYPE, NamedNode(t)))
            before = [seen(Resource), seen(root)] + [seen(m) for m in made]
            x, ex = vf.outcome(Resource.classify, g, node)
            if ex is not None or not all(isinstance(x, made[b - 1]) for b in bs): break      # C17's concern
            combined = type(x)
            own, names = {}, []
        else:
            own = {p: r.choice(values) for p in r.sample(prefixes[:5] + prefixes[6:9], r.choice([0, 0, 1, 2, 3, 7]))}
            inherited = {p for b in bs for p in made[b - 1].prefixes} | set(own) | {"rdfs", "rdf"}
            names = [[p, "s%d" % r.randrange(3)] for p in sorted(inherited) if r.random() < .4]
        if not combined and not orderly([made[b - 1] for b in bs] or [root]): break
        cls = combined or define(r, "K%d" % n, [made[b - 1] for b in bs] or [root], own, names)
        made.append(cls)
        above_.append({n + 1}.union(*[above_[b - 1] for b in bs]))
        # names resolved by any class there is so far, the global profile changing in between
        res = []
        for p in ("x", "y", "z", "", "X", "xx", "x.", "rdfs", "rdf", "xsd", "gp", "zz") * r.choice([1, 1, 3]):
            if r.random() < .1:
                q, v = r.choice(["gp", "x", "zz", "y", ""]), r.choice(["g", "v1", "v2"])
                x, ex = vf.outcome(r.choice([glob.setPrefix, glob.prefixes.__setitem__, lambda q, v: glob.prefixes.pop(q, None)]), q, NS[v])
                assert ex is None, ex
            name = [p, r.choice(["n", "n", "n:m", "", "a/b"])]
            k = r.choice([n, n, r.randrange(n + 1)])
            x, ex = vf.outcome(r.choice([made[k], made[k](g, NamedNode("http://e/empty"))]).resolve, ":".join(name))
            if ex is None:
                ns = [v for v in NS.values() if str(x) == v + name[1]]
                got = [TOK[ns[0]], name[1]] if ns else ["?" + str(x), ""]
            else: got = [ex]
            res.append({"n": name, "got": got, "c": k + 1, "g": {"-": "none", **{str(p): TOK[str(v)] for p, v in glob.prefixes.items()}}})
        # a predicate is read as a scalar exactly when it is one
        ok = True
        for p in list(cls.scalars)[:3] + [NamedNode("http://one.example/none")]:
            x, ex = vf.outcome(lambda: cls(g, NamedNode("http://e/empty"))[str(p)])
            ok &= ex is None and (x is None) == (p in cls.scalars)
        ev.append({"bases": bs or [0], "own": {"-": "none", **own}, "names": names, "view": view(cls), "scalars": [split(x) for x in cls.scalars], "res": res, "decl": decl, "seen": now,
                   "kept": ok and [seen(Resource), seen(root)] + [seen(m) for m in made[:-1]] == before})
        before.append(seen(cls))
    return {"prefixes": prefixes, "root": view(root), "rootscalars": [split(x) for x in root.scalars], "ev": ev}


def random_defs(c, count):
    traces = [defs_history(c.rng) for _ in range(count)]
    res, bad = vf.validate("TraceClassDefs", traces, timeout=2000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    for t, i, clause in bad[:4]:
        c.violation("a recorded definition disagrees (%s)" % clause, {"definitions": traces[t]["ev"][:i + 1]})


def run(c, prop):
    if prop == "C17":
        replay(c)
        if not c.enough(): histories(c, c.pick(400, 6000), 60)
        if not c.enough(): orders(c)
    else:
        definitions(c)
        if not c.enough(): random_defs(c, c.pick(600, 8000))


if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--outcomes":
        print(json.dumps([int(sys.argv[2]), outcomes(*map(int, sys.argv[2:5]))]))
        sys.exit()
    vf.main(prop, lambda c: run(c, prop))
