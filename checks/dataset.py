"""C03: pymantic.primitives.Dataset against spec/DatasetStore.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from terms import *
from pymantic.primitives import Dataset, Graph, RDFEnvironment

WILD, DEFAULT = "*", "none"


def worlds():
    e = "http://example.com/"
    b1, b2, b3 = bn(), bn(), bn()
    yield "iris", World(dict(s1=iri(e + "s1"), s2=iri(e + "s2"), p1=iri(e + "p1"), o1=iri(e + "o1"),
                             g1=iri(e + "g1"), g2=iri(e + "g2"), none=none))
    yield "mixed", World(dict(s1=b1, s2=iri(e), p1=iri(e), o1=lit("x", "en"), g1=iri(e), g2=b2, none=none))
    yield "literals", World(dict(s1=iri("x"), s2=b1, p1=iri("x"), o1=lit(""), g1=b2, g2=b3, none=none))


def wtok(w, t, pos):
    return DEFAULT if t is None else w.tok(t, pos)


class Driver:
    def __init__(self, w):
        self.w, self.ds = w, RDFEnvironment().createDataset() if id(w) % 2 else Dataset()
        self.regs, self.snaps, self.open = [self.ds], [], []

    def toks(self, st):
        try:
            if len(st) != 4:
                return ["?"] * 4
            return [wtok(self.w, x, p) for x, p in zip((st.subject, st.predicate, st.object, st.graph), "spog")]
        except Exception:
            return ["?"] * 4

    def safe(self, f, n=4):
        v, ex = vf.outcome(lambda: [self.toks(t) for t in f()])
        return v if ex is None else [["!", ex] + ["!"] * (n - 2)]

    def names(self):
        v, ex = vf.outcome(lambda: [wtok(self.w, g.uri, "g") for g in self.ds.graphs])
        return v if ex is None else ["!" + ex]

    def graph(self, toks, name, style):
        g = Graph(name) if style else Graph()
        for t in toks:
            g.add(self.w.triple(t))
        return g

    def probe(self, ds, pats):
        now, self.ds = self.ds, ds
        try:
            return {"now": self.safe(lambda: ds), "q": [{"p": p, "r": self.match(p, 0)} for p in pats], "names": self.names()}
        finally:
            self.ds = now

    def apply(self, op, arg, name, style=0):
        w, ds = self.w, self.ds
        reg = style if isinstance(style, str) else None
        if op == "switch":
            self.ds = self.regs[int(reg)]
            return "ok"
        nm = None if name == DEFAULT else w.term(name)
        if op == "add": f = lambda: ds.add(w.quad(arg[0]))
        elif op == "remove": f = lambda: ds.remove(w.quad(arg[0]))
        elif op == "addAll":
            qs = [w.quad(a) for a in arg]
            if reg is not None:
                qs = self.regs[int(reg)]
            elif style % 3 == 1:
                other = Dataset(); other.addAll(qs); qs = other
                self.regs.append(other)
            elif style % 3 == 2:
                qs = iter(qs)
            f = lambda: ds.addAll(qs)
        elif op == "removeMatches":
            p = [None if x == WILD else w.term(x) for x in arg[0]]
            f = (lambda: ds.removeMatches(*p)) if style % 2 else (lambda: ds.removeMatches(
                **{k: v for k, v in zip(("subject", "predicate", "object", "graph"), p) if v is not None}))
        elif op == "addGraph":
            own = style % 2 and isinstance(nm, NamedNode)
            g = self.graph(arg, nm if own else NamedNode("http://former.example/") if style % 8 > 3 else None, own or style % 8 > 3)
            f = (lambda: ds.add_graph(g)) if own else (lambda: ds.add_graph(g, str(nm) if style % 4 == 2 and isinstance(nm, NamedNode) else nm))
        elif op == "addUnnamed":
            g = self.graph(arg, None, False)
            f = lambda: ds.add_graph(g)
        elif op == "removeGraph":
            if style % 2:
                held = [g for g in ds.graphs if g.uri == nm]
                f = (lambda: ds.remove_graph(held[0])) if held else (lambda: ds.remove_graph(nm))
            else:
                f = lambda: ds.remove_graph(nm)
        elif op == "query":
            f = lambda: None
        else:
            raise vf.MachineryError(op)
        r, ex = vf.outcome(f)
        return ex or "ok"

    def match(self, p, style):
        p = [None if x == WILD else self.w.term(x) for x in p]
        if style % 2:
            f = lambda: self.ds.match(**{k: v for k, v in zip(("subject", "predicate", "object", "graph"), p) if v is not None})
        else:
            f = lambda: self.ds.match(*p)
        if style % 3 == 2:     # a reading that is never finished, and two at once
            self.open = (self.open + [f()])[-3:]
            next(iter(self.open[-1]), None)
            a, b = self.safe(lambda: (x for x, _ in zip(f(), f()))), self.safe(f)
            return a if vf.canon(a) == vf.canon(b) else [["!", "differs", "!", "!"]]
        return self.safe(f)

    def observe(self, pats, quads, triples, style=0, see=None):
        """What can be seen of the dataset; with see, only these clauses are looked at."""
        want = lambda c: see is None or c in see
        n, ex = vf.outcome(lambda: len(self.ds)) if want("size") else (0, None)
        def take():
            a = self.ds.toArray()
            self.snaps = (self.snaps + [(a, [self.toks(t) for t in a])])[-4:]
            return a
        return {"len": n if ex is None else -1, "iter": self.safe(lambda: self.ds) if want("iteration") else [],
                "arr": self.safe(take) if want("snapshot") else [],
                "snaps": [{"was": was, "now": [self.toks(t) for t in a]} for a, was in self.snaps] if want("snapshot") else [],
                "mem": [{"q": q, "r": vf.outcome(lambda: self.w.quad(q) in self.ds)[0] is True} for q in quads] if want("membership") else [],
                "tmem": [{"t": t, "r": vf.outcome(lambda: self.w.triple(t) in self.ds)[0] is True} for t in triples] if want("triple membership") else [],
                "q": [{"p": p, "r": self.match(p, style)} for p in pats] if want("match") else [],
                "names": self.names() if want("names") else []}


ALL = ("size", "iteration", "snapshot", "membership", "triple membership", "match", "names")


def glimpse(rng):
    """The clauses looked at after a step: all, a few, or none at all."""
    k = rng.random()
    return set(ALL) if k < .2 else set() if k < .5 else set(rng.sample(ALL, rng.choice([1, 1, 2, 3])))


def exact(got, want):
    return len(got) == len(want) and vf.canon(got) == vf.canon(want)


def skey(s):
    return vf.canon(s["q"]) + vf.canon(s["n"])


def replay_spec(c):
    res, recs = vf.explore("MCDatasetStore")
    c.model(res)
    exp, trans = {}, []
    for r in recs:
        if r["k"] == "o":
            r["m"] = {tuple(x["p"]): x["r"] for x in r["m"]}
            exp[skey(r["s"])] = r
        else:
            trans.append((skey(r["f"]), r["a"], skey(r["t"])))
    pats = sorted(next(iter(exp.values()))["m"])
    allq = sorted({tuple(q) for e in exp.values() for q in e["s"]["q"]})
    allt = sorted({q[:3] for q in allq})
    c.cov["spec_transitions"] = len(trans)
    walks = list(vf.edge_cover(trans, vf.canon([]) + vf.canon([]), c.rng, maxlen=c.pick(60, 250)))

    def replay(c, job):
        name, w = list(worlds())[job[0]]
        for walk in job[1]:
            d, done = Driver(w), []
            sparse = c.rng.random() < .6
            for n, (f, a, t) in enumerate(walk):
                style = c.rng.randrange(12)
                last = n == len(walk) - 1
                see = set(ALL) if last or n % 12 == 11 or not sparse else glimpse(c.rng)
                before = d.names() if "names" in see else None
                r = d.apply(a["op"], a["arg"], a["name"], style)
                done.append([a["op"], a["arg"], a["name"], a["res"]])
                obs = d.observe(pats if last else c.rng.sample(pats, 6), allq if last else c.rng.sample(allq, 3), allt, style, see)
                e = exp[t]
                want = e["s"]["q"]
                ws = {tuple(q) for q in want}
                occ = {tuple(x) for x in e["w"]}
                after = d.names() if "names" in see else None
                bad = None
                if r != a["res"]: bad = ("outcome", a["res"], r)
                elif "size" in see and obs["len"] != len(want): bad = ("size", len(want), obs["len"])
                elif "iteration" in see and not exact(obs["iter"], want): bad = ("iteration", want, obs["iter"])
                elif "snapshot" in see and not exact(obs["arr"], want): bad = ("snapshot", want, obs["arr"])
                elif any(not exact(k["now"], k["was"]) for k in obs["snaps"]): bad = ("kept snapshot", "unchanged", obs["snaps"])
                else:
                    for m in obs["mem"]:
                        if m["r"] != (tuple(m["q"]) in ws): bad = ("membership", m["q"], m["r"])
                    for m in obs["tmem"]:
                        if m["r"] != (tuple(m["t"]) in occ): bad = ("triple membership", m["t"], m["r"])
                    for q in obs["q"]:
                        if not exact(q["r"], e["m"][tuple(q["p"])]): bad = ("match " + str(q["p"]), e["m"][tuple(q["p"])], q["r"])
                    nm = obs["names"]
                    if "names" not in see: pass
                    elif len(nm) != len(set(nm)) or not {q[3] for q in want} <= set(nm) or not set(nm) <= set(e["s"]["n"]):
                        bad = ("names", e["s"]["n"], nm)
                    elif sorted(nm) != sorted(after): bad = ("names changed by queries", nm, after)
                    elif a["res"] != "ok" and sorted(nm) != sorted(before): bad = ("names changed by failure", before, nm)
                if bad:
                    c.violation("dataset departs from the specification (%s terms)" % name,
                                {"clause": bad[0], "want": bad[1], "got": bad[2], "history": done})
                    break
            c.add("traces_validated_against_impl")
            c.add("steps_replayed", len(done))
            if c.enough():
                return
        c.sample({"world": name, "last_history": done[-4:]})
    c.parallel(replay, [(i, walks[j::3]) for i in range(len(list(worlds()))) for j in range(3)])


def record(c, n, bulk=0):
    rng = c.rng
    e = "http://example.com/"
    mk = dict(none=none)
    for i in range(3):
        mk["i%d" % i] = iri(e + "n%d" % i)
        mk["b%d" % i] = bn()
    for j, (v, la, dt) in enumerate([("x", None, None), ("x", "en", None), ("x", None, XSD + "string"), ("", None, None)]):
        mk["l%d" % j] = lit(v, la, dt)
    iris, bns, lits = [[k for k in mk if k[0] == z and k != "none"] for z in "ibl"]
    w = World(mk)
    d = Driver(w)
    ev = []
    names = iris[:2] + bns[:1]
    def quad():
        cur = d.safe(lambda: d.ds) if rng.random() < .5 else None
        if cur:
            return list(rng.choice(cur))
        return [rng.choice(iris + bns), rng.choice(iris), rng.choice(iris + bns + lits), rng.choice(names + [DEFAULT])]
    def pat():
        q = [x if rng.random() < .5 else WILD for x in quad()]
        return q[:3] + [WILD if q[3] == DEFAULT else q[3]]
    full = rng.random() < .3
    for k in range(n):
        op = rng.choices(["add", "remove", "addAll", "removeMatches", "addGraph", "addUnnamed", "removeGraph", "query", "switch"], [8, 6, 1.5, 2, 1, .5, 1, 2, 1.5])[0]
        name, arg = DEFAULT, []
        style = rng.randrange(12)
        other = new = -1
        if op in ("add", "remove"): arg = [quad()]
        elif op == "addAll":
            arg = [quad() for _ in range(rng.randrange(bulk // 2, bulk) if bulk and k % 3 == 0 else rng.randrange(5))]
            if rng.random() < .4:
                new = rng.randrange(len(d.regs))
                arg, style = d.safe(lambda: d.regs[new]), str(new)
            elif style % 3 == 1:
                other = len(d.regs)
        elif op == "removeMatches": arg = [pat()]
        elif op in ("addGraph", "addUnnamed"):
            arg = [quad()[:3] for _ in range(rng.randrange(4))]
            if op == "addGraph": name = rng.choice(names)
        elif op == "removeGraph": name = rng.choice(names)
        elif op == "switch":
            new = rng.randrange(len(d.regs))
            style = str(new)
        see = set(ALL) if full or k % 20 == 19 else glimpse(rng)
        before = d.names() if "names" in see else []
        res = d.apply(op, arg, name, style)
        obs = d.observe([pat() for _ in range(5)] + [[WILD] * 4] if "match" in see else [], [quad() for _ in range(3)] if "membership" in see else [],
                        [quad()[:3] for _ in range(3)] if "triple membership" in see else [], style if isinstance(style, int) else 0, see)
        kept = []
        for i in rng.sample(range(len(d.regs)), min(2, len(d.regs))) if rng.random() < .4 else ():
            q = quad()
            kept.append(dict(d.probe(d.regs[i], [[WILD, WILD, WILD, WILD if q[3] == DEFAULT else q[3]], [q[0], WILD, WILD, WILD], [WILD, q[1], q[2], WILD]]), id=i))
        ev.append(dict({"op": op, "arg": arg, "name": name, "res": res, "before": before, "other": other, "new": new, "see": sorted(see), "kept": kept}, **obs))
    return {"ev": ev}


def held_twice(c):
    """One graph object held under two names: every quad carries the name it is held under."""
    w = World(dict(s1=iri("http://e/s"), p1=iri("http://e/p"), o1=iri("http://e/o"), g1=iri("http://e/g1"), g2=iri("http://e/g2"), none=none))
    runs = []
    for order in (("g1", "g2"), ("g2", "g1")):
        d = Driver(w)
        g = Graph()
        g.add(w.triple(["s1", "p1", "o1"]))
        ev = []
        for nm in order:
            before = d.names()
            _, ex = vf.outcome(lambda: d.ds.add_graph(g, w.term(nm)))
            o = d.observe([[WILD] * 4, [WILD, WILD, WILD, "g1"], ["s1", WILD, WILD, "g2"]], [["s1", "p1", "o1", "g1"], ["s1", "p1", "o1", "g2"]], [["s1", "p1", "o1"]])
            # the names are those of the graphs' keys: a graph object has only one name of its own
            o["names"] = sorted({q[3] for q in o["iter"]})
            ev.append(dict({"op": "addGraph", "arg": [["s1", "p1", "o1"]], "name": nm, "res": ex or "ok", "before": before,
                            "other": -1, "new": -1, "see": list(ALL), "kept": []}, **o))
        runs.append({"ev": ev})
    return runs


def trace_check(c):
    runs = held_twice(c) + [record(c, c.pick(60, 150)) for _ in range(c.pick(60, 500))] + [record(c, c.pick(16, 40), c.rng.choice([60, 300])) for _ in range(c.pick(6, 30))]
    res, bad = vf.validate("TraceDatasetStore", runs)
    c.model(res)
    c.add("traces_validated_against_impl", len(runs))
    c.add("events_validated", sum(len(r["ev"]) for r in runs))
    for t, i, clause in bad:
        if not c.enough():
            c.violation("recorded history is not a behaviour of DatasetStore",
                        {"clause": clause, "event": runs[t]["ev"][i], "history": [[e["op"], e["arg"], e["name"], e["res"]] for e in runs[t]["ev"][:i + 1]]})


def run(c):
    replay_spec(c)
    if not c.enough():
        trace_check(c)


if __name__ == "__main__":
    vf.main("C03", run)
