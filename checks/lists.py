"""C13: iteration of RDF lists against spec/RdfList.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Triple
from pymantic.parsers import turtle_parser
from pymantic.rdf import List, Resource, register_class

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
E = "http://list.example/"
# names of cells and of members, some of them not far from rdf:nil
CELLS = [E + "c%d"] * 6 + [E + "c%d/nil", E + "c%d#nil", RDF + "nil%d", RDF + "nil#%d", RDF + "%d/nil", "urn:%d:" + RDF + "nil"]
MEMBERS = [E + "i%d"] * 5 + [E + "i%d#nil", RDF + "Nil%d", RDF + "nil/%d", "urn:i%d:nil"]
FIRST, REST, NIL, TYPE = (NamedNode(RDF + x) for x in ("first", "rest", "nil", "type"))


@register_class(E + "TA")
class A(Resource):
    prefixes = {"ex": E}


@register_class(E + "TB")
class B(A):
    lang = "fr"


class SubList(List):
    prefixes = {"ex": E}
    lang = "fr"


def instances(r, k, n):
    """A term of a kind: (term, class)."""
    if k == 11: return NamedNode(r.choice(MEMBERS) % n), Resource
    if k == 12: return BlankNode(), B
    if k == 13: return Literal(r.choice(["a", "", "0"]), r.choice(["en", "en-us"])), None
    if k == 14: return Literal("a", "fr"), None
    if k == 15: return Literal(r.choice(["a", "", "nil"])), None
    if k == 16: return Literal(r.choice(["1", "x"]), None, NamedNode(XSD + "integer")), None
    if k == 17: return NamedNode(E + "a%d" % n), A
    raise KeyError(k)


class World:
    """A graph with the cells, and what else may be there."""

    def __init__(self, r, first, rest, typed=None):
        self.r = r
        self.cells = [BlankNode() if r.random() < .6 else NamedNode(r.choice(CELLS) % i) for i in range(len(first))]
        self.classes = {}
        t = []
        self.terms = []
        shared = {}
        for i, (f, nx) in enumerate(zip(first, rest)):
            if f == 0: o = NIL
            elif f <= 10 or f >= 100: o = self.cells[(f if f <= 10 else f - 100) - 1]
            else:
                if f not in shared or r.random() < .5:
                    shared[f] = instances(r, f, len(shared) * 100 + i)
                o, cls = shared[f]
                if cls is not None: self.classes[o] = cls
                if cls in (A, B): t.append(Triple(o, TYPE, NamedNode(E + ("TA" if cls is A else "TB"))))
            self.terms.append(o)
            t.append(Triple(self.cells[i], FIRST, o))
            t.append(Triple(self.cells[i], REST, self.cells[nx - 1] if nx else NIL))
            if r.random() < .2: t.append(Triple(self.cells[i], TYPE, NamedNode(RDF + "List")))
            if r.random() < .2: t.append(Triple(self.cells[i], NamedNode(E + "p"), r.choice([NIL, Literal("first"), self.cells[0]])))
            if r.random() < .1: t.append(Triple(NamedNode(E + "o"), NamedNode(E + "p"), self.cells[i]))
            if r.random() < .1:
                t.append(Triple(self.cells[i], TYPE, NamedNode(E + "TA")))
                self.classes[self.cells[i]] = A
        if r.random() < .3: t.append(Triple(NIL, NamedNode(E + "p"), Literal("x")))
        r.shuffle(t)
        self.graph = Graph()
        for x in t: self.graph.add(x)
        self.before = set(self.graph)

    def member(self, x):
        return NIL if x == 0 else None

    def unchanged(self):
        return set(self.graph) == self.before and len(self.graph) == len(self.before)

    def start(self, node):
        k = self.r.randrange(5)
        if k == 0: return List(self.graph, node)
        if k == 1: return SubList(self.graph, node)
        if k == 2: return Resource.classify(self.graph, node).as_(List)
        if k == 3 and isinstance(node, NamedNode): return List(self.graph, str(node))
        return Resource(self.graph, node).as_(SubList)

    def right(self, got, term):
        """Is got the member given as documented?"""
        if isinstance(term, Literal):
            return isinstance(got, Literal) and got == term
        return isinstance(got, Resource) and got.subject == term and type(got.subject) is type(term) and got.graph is self.graph \
            and isinstance(got, self.classes.get(term, Resource)) and (term in self.classes and self.classes[term] is not Resource or type(got) is Resource)


def one(c, rec):
    w = World(c.rng, rec["f"], rec["r"])
    info = {"first": [repr(x) for x in w.terms], "rest": rec["r"]}
    nodes = w.cells + [NIL]
    lists = [[w.terms[i - 1] for i in walk(rec["r"], k + 1)] for k in range(len(w.cells))] + [[]]
    # the specification's members, by kind, are those of the cells walked
    for k, m in enumerate(rec["m"]):
        if m != [rec["f"][i - 1] for i in walk(rec["r"], k + 1)]:
            raise vf.MachineryError("walk of the harness differs from the specification")
    for node, want in zip(nodes, lists):
        c.add("traces_validated_against_impl")
        x = w.start(node)
        got, ex = vf.outcome(lambda: [y for y, _ in zip(x, range(len(want) + 3))])
        if ex is not None or len(got) != len(want) or not all(w.right(a, b) for a, b in zip(got, want)):
            c.violation("iterating gives other members", dict(info, start=repr(node), want=[repr(t) for t in want], got=repr(got), error=ex))
        if len(want) > 1 and c.rng.random() < .2:      # two iterations at once
            a, b = iter(x), iter(x)
            got = [next(a, None), next(b, None), next(a, None), next(b, None)]
            if not all(w.right(g, t) for g, t in zip(got, [want[0], want[0], want[1], want[1]])):
                c.violation("iterations disturb each other", dict(info, start=repr(node)))
    for node in nodes + [t for t in w.terms if not isinstance(t, Literal)] + [NamedNode(E + "o"), BlankNode()]:
        got, ex = vf.outcome(c.rng.choice([List, SubList]).is_list, node, w.graph)
        if ex is not None or bool(got) is not (node in w.cells):
            c.violation("is_list is wrong", dict(info, node=repr(node), got=got, error=ex))
    if not w.unchanged(): c.violation("iterating changed the graph", info)


def walk(rest, i):
    out = []
    while i:
        out.append(i)
        i = rest[i - 1]
    return out


def long_lists(c, count, size):
    traces, infos = [], []
    for k in range(count):
        n = c.rng.randrange(1, size)
        kinds = c.rng.choice([[11], [15], [13], [11, 12, 13, 14, 15, 16, 17, 0]])
        first = [c.rng.choice(kinds + [100 + c.rng.randrange(1, n + 1)]) for _ in range(n)]
        order = list(range(1, n + 1))
        c.rng.shuffle(order)
        rest = [0] * n
        for i in range(n):
            rest[order[i] - 1] = 0 if i == 0 else order[i - 1] if c.rng.random() < .999 else order[c.rng.randrange(i)]
        w = World(c.rng, first, rest)
        ids = {}
        for t in w.terms: ids.setdefault((type(t).__name__, t), len(ids))
        start = order[-1]
        it = iter(w.start(w.cells[start - 1]))
        ev = []
        while len(ev) < n + 3:
            try: x = next(it)
            except StopIteration:
                ev.append({"op": "end", "x": 0})
                break
            except Exception as e:
                ev.append({"op": "raise " + type(e).__name__, "x": 0})
                break
            t = x.subject if isinstance(x, Resource) else x
            ev.append({"op": "yield", "x": ids.get((type(t).__name__, t), -1) if w.right(x, t) else -2})
        if not w.unchanged(): c.violation("iterating changed the graph", {"length": n})
        traces.append({"first": [ids[(type(t).__name__, t)] for t in w.terms], "rest": rest, "start": start, "ev": ev})
    res, bad = vf.validate("TraceRdfList", traces, timeout=2000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    c.cov["longest_list"] = max(len(t["ev"]) for t in traces)
    for t, i, clause in bad[:3]:
        c.violation("iteration of a long list: " + clause, {"position": i, "event": traces[t]["ev"][i], "cells": len(traces[t]["first"])})


class Edited:
    """Graphs whose lists are edited, with nodes in common, and List objects kept over the edits."""

    def __init__(self, r, n, count):
        self.r, self.n = r, n
        self.graphs = [Graph() for _ in range(count)]
        self.cells = [BlankNode() if r.random() < .6 else NamedNode(r.choice(CELLS) % i) for i in range(n)]
        self.rest = [{} for _ in self.graphs]      # as the harness wants it
        self.first = [{} for _ in self.graphs]
        self.kept = []
        pool = [Literal("a"), Literal("a", "en"), Literal("a", "EN"), Literal("", None, NamedNode(XSD + "integer")), Literal("1"), Literal("1", None, NamedNode(XSD + "integer")), NamedNode(E + "i"), NamedNode(E + "i/"),
                BlankNode(), BlankNode(), NIL] + self.cells[:2]
        self.members = r.sample(pool, len(pool))
        for g in self.graphs:       # things beside the lists
            if r.random() < .5: g.add(Triple(NamedNode(E + "o"), NamedNode(E + "p"), r.choice(self.cells)))
        self.extra = [set(g) for g in self.graphs]

    def node(self, j): return NIL if j == 0 else self.cells[j - 1]

    def swap(self, w, i, p, old, new):
        """Replace the object of a triple, one way or another."""
        g, s = self.graphs[w], self.cells[i - 1]
        k = self.r.randrange(4)
        if old is None: g.add(Triple(s, p, new))
        elif new is None: g.remove(Triple(s, p, old))
        elif k == 0:
            g.remove(Triple(s, p, old))
            g.add(Triple(s, p, new))
        elif k == 1:
            g.add(Triple(s, p, new))
            if new != old: g.remove(Triple(s, p, old))
        elif k == 2:
            g.removeMatches(s, p, None)
            g.addAll([Triple(s, p, new)])
        else:
            for t in list(g.match(subject=s, predicate=p)): g.remove(t)
            g.add(Triple(s, p, new))

    def do(self, w, a):
        """Carry out an edit of the specification."""
        op, i = a[0], a[1]
        f, n = self.first[w], self.rest[w]
        if op in ("attach", "first"):
            x = self.members[a[2] - 1]
            self.swap(w, i, FIRST, f.get(i), x)
            f[i] = x
        if op in ("attach", "rest"):
            x = self.node(a[-1])
            self.swap(w, i, REST, n.get(i), x)
            n[i] = x
        if op == "detach":
            self.swap(w, i, FIRST, f.pop(i), None)
            self.swap(w, i, REST, n.pop(i), None)

    def look(self, w, i):
        """The members seen from a cell, by number; through an object made for it or one from before."""
        g, node = self.graphs[w], self.node(i)
        old = [x for x in self.kept if x.graph is g and x.subject == node and type(x.subject) is type(node)]
        if old and self.r.random() < .6: x = self.r.choice(old)
        else:
            x = self.r.choice([lambda: List(g, node), lambda: SubList(g, node), lambda: Resource(g, node).as_(List)])()
            self.kept.append(x)
            del self.kept[:-12]
        out = []
        try:
            for m, _ in zip(x, range(self.n + 2)):
                t = m.subject if isinstance(m, Resource) else m
                ok = isinstance(m, Resource) is not isinstance(t, Literal) and (not isinstance(m, Resource) or m.graph is g)
                out.append(next((k + 1 for k, y in enumerate(self.members) if y == t and type(y) is type(t)), -1) if ok else -2)
        except Exception as e:
            return ["raised " + type(e).__name__]
        return out

    def same(self):
        return all(set(g) == x | {Triple(self.cells[i - 1], p, o) for m, p in ((self.first[w], FIRST), (self.rest[w], REST)) for i, o in m.items()}
                   for w, (g, x) in enumerate(zip(self.graphs, self.extra)))


def edits(c):
    """Walks over TLC's edits of a small graph."""
    res, recs = vf.explore("MCListEdit", c.pick("MCListEdit", "MCListEditDeep") if c.rng.random() < .5 else "MCListEdit", timeout=1500)
    c.model(res)
    obs = {vf.key(x["s"]): x["m"] for x in recs if "s" in x}
    trans = [(vf.key(x["f"]), x["a"], vf.key(x["t"])) for x in recs if "f" in x]
    n = len(recs[0]["s" if "s" in recs[0] else "f"]["rest"])
    walks = list(vf.edge_cover(trans, vf.key({"first": [0] * n, "rest": [-1] * n}), c.rng, 200))
    c.cov["edits_replayed"] = len(trans)

    def part(c, k):
        r = c.rng
        for walk in walks[k::8]:
            w, log = Edited(r, n, 1), []
            often = r.choice([.2, .6, 1])
            for _, a, t in walk:
                w.do(0, a)
                log.append(a)
                c.add("traces_validated_against_impl")
                for i in range(1, n + 1):
                    if r.random() > often: continue
                    live = i in w.rest[0]
                    got, ex = vf.outcome(List.is_list, w.node(i), w.graphs[0])
                    if ex is not None or bool(got) is not live: c.violation("is_list is wrong after edits", {"edits": log[-12:], "cell": i, "got": got, "error": ex})
                    if live and w.look(0, i) != obs[t][i - 1]: c.violation("iterating an edited list gives other members", {"edits": log[-12:], "cell": i, "want": obs[t][i - 1]})
                if not w.same(): c.violation("iterating changed the graph", {"edits": log[-12:]})
                if c.enough(): return
    c.parallel(part, range(8))


def edit_histories(c):
    """Recorded edits of two graphs with the same nodes."""
    r = c.rng
    traces = []
    for _ in range(c.pick(150, 2500)):
        n = r.choice([2, 4, 9])
        w, ev = Edited(r, n, 2), []
        rest = [{}, {}]
        for _ in range(r.choice([10, 40])):
            k = r.randrange(2)
            g = rest[k]

            def leads(j, i):
                while j and j != i: j = g[j]
                return j == i
            opts = []
            i = r.randrange(1, n + 1)
            x = r.randrange(1, len(w.members) + 1)
            if i not in g: opts += [("attach", i, x, j) for j in [0] + list(g)]
            else:
                opts += [("first", i, x)] + [("rest", i, j) for j in [0] + list(g) if not leads(j, i)]
                if i not in g.values(): opts += [("detach", i)]
            a = r.choice(opts)
            if a[0] in ("attach", "rest"): g[i] = a[-1]
            if a[0] == "detach": del g[i]
            w.do(k, a)
            look = r.choice([0, .2, 1])
            places = [(u, v) for u in range(2) for v in range(n + 1)]
            seen = [{"w": u + 1, "i": v, "got": w.look(u, v)} for u, v in places if r.random() < look and (v == 0 or v in rest[u])]
            isl = [{"w": u + 1, "i": v, "got": bool(List.is_list(w.node(v), w.graphs[u]))} for u, v in places if r.random() < look]
            ev.append({"op": a[0], "w": k + 1, "i": i, "x": x, "j": a[-1], "seen": seen, "isl": isl, "same": w.same()})
        traces.append({"n": n, "ev": ev})
    res, bad = vf.validate("TraceListEdit", traces, timeout=2000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    for t, i, clause in bad[:3]:
        if clause == "harness": raise vf.MachineryError("an edit the specification does not allow")
        c.violation("edited lists: " + clause, {"edits": [{x: e[x] for x in ("op", "w", "i", "x", "j")} for e in traces[t]["ev"][:i + 1]], "event": traces[t]["ev"][i]})


def parsed_lists(c):
    """Lists that the Turtle parser made."""
    r = c.rng
    nx, dt = NamedNode(E + "x"), NamedNode(E + "d")
    leaves = [(nx, "<%s>" % nx), (Literal("a", "en"), '"a"@en'), (Literal("5", None, NamedNode(XSD + "integer")), "5"), (Literal("", None, NamedNode(XSD + "string")), '""'),
              (Literal("a", None, dt), '"a"^^<%s>' % dt), (NIL, "<%s>" % NIL), (Literal("true", None, NamedNode(XSD + "boolean")), "true"), ([], "()")]

    def member(d):
        if d == 3 or r.random() < .8: return r.choice(leaves)
        sub = [member(d + 1) for _ in range(r.randrange(4))]
        return [x for x, _ in sub], "(%s)" % " ".join(t for _, t in sub)

    def same(g, node, want):
        got, ex = vf.outcome(lambda: [m for m, _ in zip(List(g, node), range(len(want) + 2))])
        if ex is not None or len(got) != len(want): return False
        for m, x in zip(got, want):
            if isinstance(x, Literal):
                if not isinstance(m, Literal) or plain(m) != plain(x): return False
            elif not isinstance(m, Resource) or not (same(g, m.subject, x) if isinstance(x, list) else m.subject == x): return False
        return True

    def plain(t):       # "a" and "a"^^xsd:string are the same literal
        return t[:2] + (None,) if t[2] == XSD + "string" else tuple(t)
    for _ in range(c.pick(150, 2000)):
        top = [member(0) for _ in range(r.choice([0, 1, 2, 5, 40]))]
        text = "<%ss> <%sp> (%s) ." % (E, E, " ".join(t for _, t in top))
        g, ex = vf.outcome(turtle_parser.parse, text)
        if ex is not None or not len(g): continue     # C09 and C11 judge the parser
        c.add("traces_validated_against_impl")
        if not same(g, next(g.match(subject=NamedNode(E + "s"))).object, [x for x, _ in top]):
            c.violation("iterating a parsed list gives other members", {"document": text})
        if c.enough(): return


def run(c):
    res, recs = vf.explore("MCRdfList", timeout=600)
    c.model(res)
    if c.thorough():
        res, more = vf.explore("MCRdfList", "MCRdfListDeep", timeout=3000)
        c.model(res)
        recs += more
    c.cov["graphs"] = len(recs)

    def part(c, k):
        for rec in recs[k::16]:
            one(c, rec)
            if c.enough(): return
        c.sample({"first": rec["f"], "rest": rec["r"], "members": rec["m"]})
    c.parallel(part, range(16))
    if not c.enough():
        edits(c)
    if not c.enough():
        edit_histories(c)
    if not c.enough():
        parsed_lists(c)
    if not c.enough():
        long_lists(c, c.pick(12, 60), c.pick(1500, 6000))


if __name__ == "__main__":
    vf.main(sys.argv[1], run)
