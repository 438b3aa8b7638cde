"""C31: whole programs of graphs, datasets, resources, profiles and documents, against spec/System.tla."""
import io, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, PrefixMap, Profile, Quad, RDFEnvironment, Triple
from pymantic.rdf import List, Resource, register_class
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle

E = "http://sys.example/"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
CLASS = NamedNode(E + "Kind")


@register_class(E + "Kind")
class Kind(Resource):
    prefixes = {"ex": E}


class Plain(Resource):
    prefixes = {"ex": E}


class World:
    """The objects of a program, kept next to the shape of the specification's heap."""

    def __init__(self, r, ng, nd, nf=0, ns=2, no=1, blanks=False, refs=False):
        self.r = r
        iri = lambda n: NamedNode(E + n)
        bn = lambda n: BlankNode() if blanks and r.random() < .5 else iri(n)
        r.random()
        self.s = [None] + [bn("s%d" % i) for i in range(ns)]
        self.p = [None, NamedNode(RDF + "type")] + [iri("p%d" % i) for i in range(3)]
        ob = [CLASS] + r.sample([Literal("x", "en"), Literal("x", "fr"), Literal("5", None, NamedNode(XSD + "integer")), Literal("05", None, NamedNode(XSD + "integer")), Literal("x", None, NamedNode(E + "dt")),
              Literal("X", "en"), iri("o"), iri("x"), iri("O"), Literal(E + "x", "en"), Literal("a\n\"b\\", "en"), Literal("é\U0001f600", "fr"), Literal("", None, NamedNode(E + "dt")), NamedNode(RDF + "nil")] + self.s[1:], no + 3)
        if refs: ob = [CLASS] + self.s[1:] + [o for o in ob[1:] if isinstance(o, Literal)]
        self.o = [None] + ob[:no]
        self.n = [None] + [r.choice([iri, iri, lambda n: BlankNode() if blanks else iri(n)])("g%d" % i) for i in range(3)]
        if r.random() < .3: self.n[1] = next((x for x in self.s[1:]), self.n[1])  # a graph named as a thing in it
        mk = [Graph, lambda: Graph(E + "own"), RDFEnvironment().createGraph, lambda: Graph(NamedNode(E + "g1"))]
        self.g = [None] + [r.choice(mk)() for _ in range(ng)]
        self.d = [None] + [r.choice([Dataset, RDFEnvironment().createDataset])() for _ in range(nd)]
        self.held = [None] + [{} for _ in range(nd)]
        self.f = [None]
        for _ in range(nf):
            self.f.append(r.choice([Profile, RDFEnvironment, RDFEnvironment().createProfile])())
            if r.random() < .5: self.f[-1].setPrefix("ex", E)
        self.x, self.forms, self.snaps = [None], [None], []
        self.idx = [{t: i for i, t in enumerate(x) if t is not None} for x in (self.s, self.p, self.o)]
        self.nidx = {t: i for i, t in enumerate(self.n) if t is not None}

    def T(self, t): return Triple(self.again(self.s[t[0]]), self.again(self.p[t[1]]), self.again(self.o[t[2]]))
    def Q(self, q): return Quad(self.again(self.s[q[0]]), self.again(self.p[q[1]]), self.again(self.o[q[2]]), self.again(self.n[q[3]]))

    def again(self, t):
        """An equal term that is, often, another object."""
        if self.r.random() < .3 or isinstance(t, BlankNode): return t
        if isinstance(t, Literal): return Literal("".join(list(t.value)), t.language, t.datatype)
        return NamedNode("".join(list(t)))

    def t3(self, t):
        return [self.idx[0].get(t.subject, -1), self.idx[1].get(t.predicate, -1), self.idx[2].get(t.object, -1)]

    def quad(self, q): return self.t3(q) + [self.nidx.get(q.graph, -1)]
    def named(self, d, n): return self.held[d].get(n)

    def res(self, g, s):
        cls, s = self.r.choice([Resource, Plain, Kind]), self.s[s]
        k = self.r.randrange(4)
        if k == 0: return Resource.classify(self.g[g], s)
        if k == 1: return cls(self.g[g], s).as_(self.r.choice([Plain, Kind]))
        return cls(self.g[g], self.again(s))

    def key(self, p):
        k = self.r.randrange(3)
        return [self.p[p], str(self.p[p]), (self.again(self.p[p]), None)][k]

    def value(self, g, o):
        v = self.o[o]
        if isinstance(v, Literal) or self.r.random() < .4: return v
        return self.r.choice([Resource, Plain])(self.r.choice([x for x in self.g if x is not None]), v)

    def write(self, g, fmt):
        f = io.StringIO()
        g = self.g[g] if isinstance(g, int) else g
        if fmt == "turtle":
            prof = self.r.choice([None, None] + self.f[1:])
            serialize_turtle(g, f, base=self.r.choice([None, None, E, RDF, E + 's'] + [str(v) for f in self.f[1:] for v in f.prefixes.values()]), profile=prof)
        elif fmt == "nt": serialize_ntriples(g, f)
        elif fmt == "nq": serialize_nquads(g, f)
        elif fmt == "json":
            out = {}
            for q in g:
                node = out.setdefault(str(q.graph) if hasattr(q, "graph") else "", {}).setdefault(str(q.subject), {"@id": str(q.subject)})
                o = q.object
                v = {"@id": str(o)} if not isinstance(o, Literal) else {"@value": o.value, "@language": o.language} if o.language else {"@value": o.value, "@type": str(o.datatype)}
                node.setdefault(str(q.predicate), []).append(v)
            return [{"@id": n, "@graph": list(v.values())} if n else {"@graph": list(v.values())} for n, v in out.items()]
        return f.getvalue()

    def read(self, doc, fmt, into):
        if fmt == "turtle": return turtle_parser.parse(doc if self.r.random() < .6 else io.StringIO(doc), graph=into, base=self.r.choice(["", E]))
        if fmt == "nt": return self.r.choice([ntriples_parser, turtle_parser]).parse(doc if self.r.random() < .6 else doc.encode() and io.StringIO(doc), graph=into)
        if fmt == "nq": return nquads_parser.parse(doc if self.r.random() < .6 else io.BytesIO(doc.encode()), graph=into)
        return jsonld_parser.parse_json(doc, sink=into)

    def do(self, a):
        """Carry the operation out on the real objects: (accepted, was the return value as it should be)."""
        r, op, g, d = self.r, a[0], self.g, self.d
        try:
            if op == "gadd": return True, g[a[1]].add(self.T(a[2])) is g[a[1]]
            if op == "gtake":
                ts = [self.T(t) for t in a[2]]
                return True, g[a[1]].addAll(r.choice([list, tuple, iter, set])(ts)) is g[a[1]]
            if op == "gdel":
                k = r.randrange(2)
                return True, g[a[1]].remove(self.T(a[2])) is g[a[1]]
            if op == "gwipe": return True, g[a[1]].removeMatches(*[self.again(x[i]) if i else None for x, i in zip((self.s, self.p, self.o), a[2])]) is g[a[1]]
            if op == "gall": return True, g[a[1]].addAll(list(g[a[2]]) if a[1] == a[2] else r.choice([lambda: g[a[2]], lambda: g[a[2]].toArray(), lambda: g[a[2]].match()])()) is g[a[1]]
            if op == "conv":
                fmt = r.choice(["nt", "turtle"])
                before = self.o + self.s
                if any(isinstance(x, BlankNode) for x in before): g[a[1]].addAll(list(g[a[2]])); return True, True
                return True, self.read(self.write(a[2], fmt), fmt, g[a[1]]) is g[a[1]]
            if op == "gmerge":
                new = g[a[1]].merge(g[a[2]])
                g.append(new)
                return True, isinstance(new, Graph) and all(new is not x for x in g[1:-1])
            if op == "gcopy":
                src = g[a[1]]
                g.append(r.choice([lambda: RDFEnvironment().createGraph(src), lambda: RDFEnvironment().createGraph(src.toArray()), lambda: Graph().addAll(src), lambda: Graph().merge(src)])())
                return True, True
            if op == "dnew":
                d.append(r.choice([Dataset, RDFEnvironment().createDataset])()); self.held.append({})
                return True, True
            if op == "dadd": d[a[1]].add(self.Q(a[2])); self.open(a[1], a[2][3]); return True, True
            if op == "ddel": d[a[1]].remove(self.Q(a[2])); return True, True
            if op == "dwipe":
                pat = [self.again(x[i]) if i else None for x, i in zip((self.s, self.p, self.o, self.n), a[2])]
                return True, d[a[1]].removeMatches(*pat) is d[a[1]]
            if op == "dput":
                name = self.n[a[2]]
                d[a[1]].add_graph(g[a[3]], name if isinstance(name, BlankNode) else r.choice([self.again(name), str(name)]))
                self.held[a[1]][a[2]] = a[3]
                return True, True
            if op == "ddrop":
                d[a[1]].remove_graph(self.again(self.n[a[2]]))
                del self.held[a[1]][a[2]]
                return True, True
            if op in ("dall", "dconv"):
                if op == "dall" or any(isinstance(x, BlankNode) for x in self.s + self.o + self.n): ok = d[a[1]].addAll(r.choice([lambda: d[a[2]], lambda: list(d[a[2]]), lambda: d[a[2]].match()])()) is d[a[1]]
                else:
                    fmt = r.choice(["nq", "json"])
                    ok = self.read(self.write(d[a[2]], fmt), fmt, d[a[1]]) is d[a[1]]
                for n in self.filled(a[2]): self.open(a[1], n)
                return True, ok
            if op == "rset":
                vs = [self.value(a[1], o) for o in a[4]]
                x = self.res(a[1], a[2])
                k = self.key(a[3])
                if isinstance(k, tuple): k = k[0]
                x[k] = vs[0] if len(vs) == 1 and r.random() < .5 else r.choice([list, tuple, set, frozenset])(vs)
                return True, True
            if op == "rdel":
                x = self.res(a[1], a[2])
                del x[self.key(a[3])]
                return True, True
            if op == "rerase": self.res(a[1], a[2]).erase(); return True, True
            if op == "rcopy":
                t = self.s[a[3]]
                y = self.res(a[1], a[2]).copy(t if isinstance(t, BlankNode) else r.choice([t, str(t)]))
                return True, y.graph is g[a[1]] and y.subject == t
            if op == "rnew":
                t = self.s[a[2]]
                y = Kind.new(g[a[1]], t if isinstance(t, BlankNode) else r.choice([t, str(t)]))
                return True, type(y) is Kind and y.graph is g[a[1]] and y.subject == t
            if op == "write":
                fmt = r.choice(["nt", "turtle"])
                self.x.append(self.write(a[1], fmt)); self.forms.append((fmt, json.dumps(self.x[-1]), False, None))
                return True, True
            if op == "dwrite":
                fmt = r.choice(["nq", "json"])
                names = self.filled(a[1])
                self.x.append(self.write(d[a[1]], fmt)); self.forms.append((fmt, json.dumps(self.x[-1]), True, names))
                return True, True
            if op == "read":
                into = g[a[2]] if a[2] else None
                got = self.read(self.x[a[1]], self.forms[a[1]][0], into)
                if not a[2]: g.append(got)
                return True, isinstance(got, Graph) and (into is None or got is into)
            if op == "dread":
                into = d[a[2]] if a[2] else None
                got = self.read(self.x[a[1]], self.forms[a[1]][0], into)
                if not a[2]: d.append(got); self.held.append({})
                for n in self.forms[a[1]][3]: self.open(a[2] or len(d) - 1, n)
                return True, isinstance(got, Dataset) and (into is None or got is into)
            if op == "pset": self.f[a[1]].setPrefix(a[2], a[3]); return True, True
            if op == "pimp": return True, self.f[a[1]].importProfile(self.f[a[2]], *([a[3]] if a[3] or r.random() < .5 else [])) is self.f[a[1]]
            if op == "pnew":
                src = self.f[a[1]]
                self.f.append(src.createProfile() if isinstance(src, RDFEnvironment) else Profile(PrefixMap(src.prefixes)))
                return True, True
            if op == "look": return True, self.look()
            if op == "fail": return self.fail(), True
        except (KeyError, ValueError):
            return False, True
        raise vf.MachineryError("operation " + op)

    def open(self, d, n):
        if n not in self.held[d]:
            made = [x for x in self.d[d].graphs if x.uri == self.n[n] and all(x is not y for y in self.g)]
            self.g.append(made[0] if len(made) == 1 else None)
            self.held[d][n] = len(self.g) - 1

    def filled(self, d):
        """The names under which a dataset reports quads."""
        return sorted({self.nidx.get(q.graph, -1) for q in self.d[d]})

    def look(self):
        """Calls that only read. Their answers are the business of other properties."""
        r = self.r
        for _ in range(r.randrange(1, 6)):
            g = r.choice([x for x in self.g if x is not None])
            s, p, o, n = (r.choice(x[1:] + [NamedNode(E + "none")]) for x in (self.s, self.p, self.o, self.n))
            t = Triple(s, p, o)
            k = r.randrange(22)
            x = r.choice([Resource, Plain, Kind])(g, s if not isinstance(s, Literal) else CLASS)
            if k == 0: [list(g.match(*[y if r.random() < .5 else None for y in t])) for _ in range(3)]
            elif k == 1: t in g, len(g), list(g.subjects()), list(g.predicates()), list(g.objects())
            elif k == 2: m = g.merge(r.choice([y for y in self.g if y is not None])); m.add(Triple(CLASS, p, CLASS)); m.removeMatches(s, None, None)
            elif k == 3: self.write(g, "nt")
            elif k == 4: self.write(g, "turtle")
            elif k == 5: list(x[p]) if p not in x.scalars else x[p]
            elif k == 6: p in x, (p, "en") in x, x == s, hash(x), str(x), repr(x)
            elif k == 7: x.is_a(), list(Kind.in_graph(g)), [list(x.object_of(p)), list(x.object_of())], list(x)
            elif k == 8: List.is_list(s, g), list(List(g, NamedNode(RDF + "nil")))
            elif k == 9: Resource.classify(g, s), vf.outcome(x.get_scalar, p), x.objects(p), x.bare_literals(p), x.objects_by_lang(p, "en"), x.objects_by_type(p), x.objects_by_datatype(p)
            elif k == 10 and len(self.d) > 1: d = r.choice(self.d[1:]); list(d.match(None, p, None, n)), list(d.match(s)), Quad(s, p, o, n) in d, t in d, len(d), list(d.graphs)
            elif k == 11 and len(self.d) > 1: d = r.choice(self.d[1:]); self.write(d, "nq"), d.toArray(), list(d.match(graph=NamedNode(E + "nowhere")))
            elif k == 12 and len(self.f) > 1: f = r.choice(self.f[1:]); f.prefixes.shrink(NamedNode(E + "x")), vf.outcome(f.resolve, "ex:y"), vf.outcome(f.resolve, "nope:y"), f.resolve("term"), f.terms.shrink(E)
            elif k == 13 and len(self.f) > 1: f = r.choice(self.f[1:]); q = Profile(PrefixMap(f.prefixes)); q.setPrefix("q", "urn:q"); q.importProfile(f, True)
            elif k == 14: RDFEnvironment().createGraph(g).removeMatches(None, None, None); RDFEnvironment().createGraph(list(g)).addAll(g)
            elif k == 15: a = g.toArray(); self.snaps.append((a, frozenset(a)))
            elif k == 16: a = list(g.match(s)); self.snaps.append((a, list(a)))
            elif k == 17: b = Graph(); b.addAll(g); b.removeMatches(s, None, None); self.snaps.append((b, set(b))) if len(self.snaps) < 6 else None
            elif k == 18: Plain(RDFEnvironment().createGraph(g), CLASS).copy(E + "copy")
            elif k == 19: Plain.new(Graph(), s if not isinstance(s, Literal) else None), Kind.new(Graph())
            elif k == 20: it = g.match(s); next(it, None)
            elif k == 21 and len(self.d) > 1: e = Dataset(); e.addAll(r.choice(self.d[1:])); e.removeMatches(s, None, None); vf.outcome(e.remove_graph, n)
        return True

    def fail(self):
        """Calls that have to be refused: True if one is not."""
        r = self.r
        g = r.choice([x for x in self.g if x is not None])
        dict_ = {1: lambda: g.remove(Triple(NamedNode(E + "absent"), self.p[2], CLASS)), 2: lambda: ntriples_parser.parse("<urn:a> <urn:b> <urn:c> .\n<urn:a> <urn:b> \"\n", graph=g),
                 3: lambda: turtle_parser.parse("<urn:a> <urn:b> <urn:c> . <urn:d> ", graph=g), 4: lambda: turtle_parser.parse("<urn:a> <urn:b> <urn:c> . nope:x <urn:b> <urn:d> .", graph=g),
                 5: lambda: Plain(g, self.s[1]).resolve("nope:x"), 6: lambda: Plain(g, self.s[1])["nope:x"], 7: lambda: Plain(g, self.s[1]).__setitem__("rdfs:label", ["a", "b"]),
                 8: lambda: Plain(g, self.s[1]).__setitem__(("ex:p0", "fr"), Literal("v", "en")), 9: lambda: ntriples_parser.parse(io.StringIO("<urn:a> <urn:b>\n"), graph=g)}
        if len(self.d) > 1:
            d = r.choice(self.d[1:])
            dict_.update({10: lambda: d.remove(Quad(self.s[1], self.p[2], self.o[1], NamedNode(E + "nowhere"))), 11: lambda: d.remove_graph(NamedNode(E + "nowhere")), 12: lambda: d.add_graph(Graph()),
                          13: lambda: nquads_parser.parse("<urn:a> <urn:b> <urn:c> <urn:g> .\n<urn:a> .", graph=d)})
        k = r.choice(sorted(dict_))
        try:
            dict_[k]()
        except Exception: return False
        return True

    def observe(self, full=True):
        """What the objects hold, by whatever way of asking."""
        r = self.r

        def triples(g):
            k = r.randrange(5)
            ts = list(g) if k == 0 else list(g.match()) if k == 1 else list(g.toArray()) if k == 2 else \
                [t for s in list(g.subjects()) for t in g.match(s)] if k == 3 else [t for o in list(g.objects()) for t in g.match(None, None, o)]
            if len(g) != len(ts): return [["len", len(g)]]
            return [self.t3(t) for t in ts]

        def quads(d):
            k = r.randrange(3)
            qs = list(d) if k == 0 else list(d.match()) if k == 1 else list(d.toArray())
            return [self.quad(q) for q in qs] + ([] if len(d) == len(qs) else [["len", len(d)]])
        see = lambda x, f: {"ok": True, "v": f(x)} if x is not None and (full or r.random() < .7) else {"ok": False, "v": []}
        out = {"g": [see(g, triples) for g in self.g[1:]], "d": [see(d, quads) for d in self.d[1:]],
               "n": [see(d, lambda d: sorted({self.nidx.get(q.graph, -1) for q in d})) for d in self.d[1:]],
               "f": [see(f, lambda f: [[k, str(v)] for k, v in f.prefixes.items()]) for f in self.f[1:]],
               "x": all(json.dumps(x) == f[1] for x, f in zip(self.x[1:], self.forms[1:])), "kept": all(type(a)(a) == b if not isinstance(a, Graph) else set(a) == b for a, b in self.snaps), "r": []}
        return out

    def plain(self, o): return self.idx[2].get(o.subject if isinstance(o, Resource) else o, -1)


def tables(c, cfg):
    """Every transition of a small program, out of TLC, carried out on the real objects."""
    res, recs = vf.explore("MCSystem", cfg, timeout=800)
    c.model(res)
    srt = lambda x: sorted(map(tuple, x))
    def state(h): return vf.key([[srt(g) for g in h["g"]], [srt(d) for d in h["d"]]])
    want = {}
    for x in recs:
        for h in (x["f"], x["t"]):
            k = state(h)
            if k not in want: want[k] = ([srt(g) for g in h["g"]], [sorted((t[0], t[1], t[2], n) for n, i in d for t in h["g"][i - 1]) for d in h["d"]])
    trans = [(state(x["f"]), (x["a"], x["ok"]), state(x["t"])) for x in recs]
    f0 = next(x["f"] for x in recs if not any(x["f"]["d"]) and not any(x["f"]["g"]) and len(x["f"]["g"]) == (1 if cfg == "MCSystemRefs" else 2))
    walks = list(vf.edge_cover(trans, state(f0), c.rng, 60))
    c.add("program_steps_replayed", len(trans))

    def part(c, k):
        for walk in walks[k::8]:
            w = World(c.rng, len(f0["g"]), len(f0["d"]), no=4 if cfg == "MCSystemRefs" else 1, blanks=c.rng.random() < .4, refs=cfg == "MCSystemRefs")
            log = []
            for _, (a, ok), t in walk:
                log.append(a)
                if a[0][0] in "gr" and None in [w.g[a[1]], w.g[a[2]] if a[0] in ("gall", "gmerge") else 0]: break  # not within reach
                got, ret = w.do(a)
                if got is not ok: c.violation("an operation is accepted or refused wrongly", {"calls": log[-8:], "accepted": got}); return
                if not ret: c.violation("an operation returns another object", {"calls": log[-8:]}); return
                gs, ds = want[t]
                o = w.observe(c.rng.random() < .3)
                bad = [("graph", i + 1, gs[i], x["v"]) for i, x in enumerate(o["g"]) if x["ok"] and (srt(x["v"]) != gs[i])] + \
                      [("dataset", i + 1, ds[i], x["v"]) for i, x in enumerate(o["d"]) if x["ok"] and (srt(x["v"]) != ds[i])]
                if bad or len(o["g"]) != len(gs): c.violation("an object of the program holds something else", {"calls": log[-8:], "objects": bad}); return
            c.add("traces_validated_against_impl")
            if c.enough(): return
        c.sample({"program": log[-4:]})
    c.parallel(part, range(8))


OPS = ["gadd"] * 5 + ["gtake"] * 3 + ["gdel"] * 3 + ["gwipe"] * 2 + ["gall"] * 2 + ["conv"] * 2 + ["gmerge", "gcopy", "dnew"] + ["dadd"] * 4 + ["ddel"] * 3 + ["dwipe"] * 2 + ["dput"] * 3 + ["ddrop"] + ["dall", "dconv"] * 2 + \
    ["rset"] * 5 + ["rdel"] * 2 + ["rerase"] + ["rcopy"] * 2 + ["rnew"] * 2 + ["write"] * 2 + ["dwrite"] + ["read"] * 3 + ["dread"] * 3 + ["pset"] * 2 + ["pimp", "pnew"] + ["look"] * 6 + ["fail"] * 3


def history(r, n):
    w = World(r, r.choice([1, 2, 3]), r.choice([0, 1, 2]), r.choice([1, 2]), r.choice([2, 3, 4]), r.choice([2, 4, 6, 8]), blanks=r.random() < .4, refs=r.random() < .3)
    start = {"ng": len(w.g) - 1, "nd": len(w.d) - 1, "f": [[[k, str(v)] for k, v in f.prefixes.items()] for f in w.f[1:]]}
    ev, tried = [], 0
    views = []
    while len(ev) < n and tried < 20 * n:
        tried += 1
        op = r.choice(OPS)
        gs = [i for i, g in enumerate(w.g) if g is not None]
        ds = list(range(1, len(w.d)))
        if op in ("write", "dwrite") and any(isinstance(x, BlankNode) for x in w.s[1:] + w.o[1:] + w.n[1:]): continue
        i = lambda x: r.randrange(1, len(x))
        t = lambda: [i(w.s), i(w.p), i(w.o)]
        old = lambda: w.t3(r.choice(list(w.g[g]))) if r.random() < .7 and len(w.g[g]) else t()
        wild = lambda x: [y if r.random() < .5 else 0 for y in x]
        g = r.choice(gs)
        if op in ("dadd", "ddel", "dwipe", "dput", "ddrop", "dall", "dconv", "dwrite") and not ds: continue
        d = r.choice(ds) if ds else 0
        oldq = lambda: w.quad(r.choice(list(w.d[d]))) if r.random() < .7 and len(w.d[d]) else t() + [i(w.n)]
        if op == "gadd": a = [op, g, t()]
        elif op == "gtake": a = [op, g, [t() for _ in range(r.randrange(5))]]
        elif op == "gdel": a = [op, g, old()]
        elif op == "gwipe":
            a = [op, g, wild(old())]
        elif op in ("gall", "conv"): a = [op, g, r.choice(gs)]
        elif op == "gmerge": a = [op, g, r.choice(gs)]
        elif op == "gcopy": a = [op, g]
        elif op == "dnew": a = [op]
        elif op == "dadd": a = [op, d, t() + [i(w.n)]]
        elif op == "ddel": a = [op, d, oldq()]
        elif op == "dwipe":
            a = [op, d, wild(oldq())]
        elif op == "dput":
            n_ = i(w.n)
            if any(v == g and k != n_ for k, v in w.held[d].items()): continue
            a = [op, d, n_, g]
        elif op == "ddrop": a = [op, d, i(w.n)]
        elif op in ("dall", "dconv"):
            e = r.choice(ds)
            if e == d or set(w.held[d].values()) & set(w.held[e].values()): continue
            a = [op, d, e]
        elif op == "rset": a = [op, g, i(w.s), i(w.p), [i(w.o) for _ in range(r.choice([0, 1, 1, 2, 3]))]]
        elif op == "rdel": a = [op, g, i(w.s), i(w.p)]
        elif op in ("rerase", "rnew"): a = [op, g, i(w.s)]
        elif op == "rcopy": a = [op, g, i(w.s), i(w.s)]
        elif op == "write": a = [op, g]
        elif op == "dwrite": a = [op, d]
        elif op in ("read", "dread"):
            docs = [k for k in range(1, len(w.x)) if w.forms[k][2] == (op == "dread")]
            if not docs: continue
            a = [op, r.choice(docs), 0 if r.random() < .4 else r.choice(gs if op == "read" else ds or [0])]
        elif op == "pset": a = [op, i(w.f), r.choice(["ex", "e", "", "rdf", "é"]), r.choice([E, E + "s", RDF, "urn:x:"])]
        elif op == "pimp": a = [op, i(w.f), i(w.f), r.random() < .5]
        elif op == "pnew": a = [op, i(w.f)]
        else: a = [op]
        if op in ("gmerge", "gcopy", "pnew", "dnew", "read", "dread") and len(w.g) + len(w.d) + len(w.f) > 14: continue
        if op in ("write", "dwrite") and len(w.x) > 6: continue
        if r.random() < .1 or not views: views.append((g, r.choice(range(1, len(w.s))), Plain)); views = views[-4:]
        objs = [(vg, vs, w.__dict__.setdefault("view", {}).setdefault((vg, vs), cls(w.g[vg], w.s[vs]))) for vg, vs, cls in views]
        if op in ("rset", "rdel", "rerase") and r.random() < .5:
            vg, vs, x = r.choice(objs)
            a[1], a[2] = vg, vs
        ok, ret = w.do(a)
        e = w.observe(r.random() < .5)
        for vg, vs, x in objs:
            p = r.randrange(1, len(w.p))
            e["r"].append({"g": vg, "s": vs, "p": p, "v": [w.plain(o) for o in x[w.key(p)]]})
        e.update(a=a, ok=ok, ret=ret)
        ev.append(e)
    return dict(start, ev=ev)


def run(c):
    for cfg in ("MCSystem", "MCSystemTwo", "MCSystemRefs"): tables(c, cfg)
    if c.enough(): return
    n = c.pick(50, 400)
    import tempfile
    d = tempfile.mkdtemp(prefix="vf_sys_")
    try:
        def part(c, k):
            with open(os.path.join(d, "t%d" % k), "w") as f:
                for _ in range(n): f.write(json.dumps(history(c.rng, c.rng.choice([8, 25, 50]))) + "\n")
        c.parallel(part, range(8))
        traces = []
        for p in sorted(os.listdir(d)):
            with open(os.path.join(d, p)) as f: traces += [json.loads(x) for x in f]
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    if c.violations: return
    res, bad = vf.validate("TraceSystem", traces, timeout=2000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    for t, i, clause in bad:
        if clause == "legal": raise vf.MachineryError("an operation outside the specification: %s" % traces[t]["ev"][i]["a"])
        c.violation("a recorded program disagrees with the specification (%s: %s)" % (traces[t]["ev"][i]["a"][0], clause), {"calls": [e["a"] for e in traces[t]["ev"][:i + 1]][-8:], "seen": traces[t]["ev"][i]})
        if c.enough(): break
    c.sample({"program": [e["a"] for e in traces[0]["ev"]][:6]})


if __name__ == "__main__":
    vf.main(sys.argv[1], run)
