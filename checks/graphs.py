"""C01/C02: pymantic.primitives.Graph against spec/GraphStore.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from terms import *
from pymantic.primitives import Graph, RDFEnvironment

MINE = {"C01": {"outcome", "size", "iteration", "snapshot", "membership", "operand", "kept snapshot"},
        "C02": {"match", "subjects", "predicates", "objects", "iteration"}}


def worlds():
    e = "http://example.com/"
    b1, b2 = bn(), bn()
    yield "iris", World(dict(s1=iri(e + "s1"), s2=iri(e + "s2"), p1=iri(e + "p1"), p2=iri(e + "p2"),
                             o1=iri(e + "o1"), o2=iri(e + "o2")))
    yield "literals", World(dict(s1=b1, s2=b2, p1=iri(e + "p"), p2=iri(e + "p#"),
                                 o1=lit("x", "en"), o2=lit("x")))
    yield "datatypes", World(dict(s1=iri(e), s2=iri(""), p1=iri(""), p2=iri(e),
                                  o1=lit("", None, XSD + "string"), o2=lit("")))
    yield "langs", World(dict(s1=iri("x"), s2=b1, p1=iri("x"), p2=iri("X"), o1=lit("x", "en"), o2=lit("x", "en-us")))
    yield "shared", World(dict(s1=b1, s2=iri("0"), p1=b2, p2=iri("1"), o1=b1, o2=lit("0", None, XSD + "integer")))


WILD = "*"


class Driver:
    """One real graph, driven by abstract calls, observed through its public API."""

    def __init__(self, w, mk=Graph):
        self.w = w
        self.g = mk()
        self.kept = []
        self.regs = [self.g]
        self.snaps = []
        self.open = []

    def probe(self, g, pats):
        """What a graph holds, by iteration and through patterns."""
        now, self.g = self.g, g
        try:
            return [self.state(g)] + [self.match(p) for p in pats] + [self.listing(n) for n in ("subjects", "predicates", "objects")]
        finally:
            self.g = now

    def around(self, *ts):
        """Patterns that go through every index around some triples."""
        out = []
        for s, p, o in ts:
            out += [[s, WILD, WILD], [WILD, p, WILD], [WILD, WILD, o], [s, p, WILD], [WILD, p, o], [s, WILD, o]]
        return out

    def state(self, g):
        v, ex = vf.outcome(lambda: [self.w.toks(t) for t in g])
        return v if ex is None else [["!", ex, "!"]]

    def pat(self, p):
        return [None if x == WILD else self.w.term(x) for x in p]

    def apply(self, op, arg, style=0):
        """arg is a list of token triples (or one pattern); returns the outcome."""
        w, g = self.w, self.g
        reg = style if isinstance(style, str) else None
        if op == "add":
            r, ex = vf.outcome(g.add, w.triple(arg[0]))
        elif op == "remove":
            r, ex = vf.outcome(g.remove, w.triple(arg[0]))
        elif op == "addAll":
            ts = [w.triple(a) for a in arg]
            if reg is not None:
                ts = self.regs[int(reg)]
            elif style % 4 == 1:
                ts = Graph().addAll(ts)
            elif style % 4 == 2:
                ts = set(ts)
            elif style % 4 == 3:
                ts = iter(ts)
            r, ex = vf.outcome(g.addAll, ts)
        elif op == "addSelf":
            r, ex = vf.outcome(g.addAll, g)
        elif op == "removeMatches":
            r, ex = vf.outcome(g.removeMatches, *self.pat(arg[0]))
        elif op == "merge":
            if reg is not None: other = self.regs[int(reg)]
            elif style % 2: other = RDFEnvironment().createGraph([w.triple(a) for a in arg])
            else: other = Graph().addAll([w.triple(a) for a in arg])
            pats = self.around(*(self.state(g)[:2] + [list(a) for a in arg[:2]]))
            was, owas = self.probe(g, pats), self.probe(other, pats)
            r, ex = vf.outcome(g.merge, other)
            if ex is None:
                self.kept.append((g, was, pats))
                self.kept.append((other, owas, pats))
                self.kept = self.kept[-4:]
                self.regs += [r] if reg is not None else [other, r]
                if r is not g and r is not other and isinstance(r, Graph):
                    self.g = r
                    return "new"
                return "alias"
        elif op == "query":
            return "self"
        elif op == "switch":
            self.g = self.regs[int(style)]
            return "self"
        else:
            raise vf.MachineryError(op)
        if ex is not None:
            return ex
        return "self" if r is g else "returned " + type(r).__name__

    def match(self, p, style=0):
        args = self.pat(p)
        if style % 3 == 1:
            f = lambda: self.g.match(**{k: v for k, v in zip(("subject", "predicate", "object"), args) if v is not None})
        elif style % 3 == 2 and args[2] is None:
            f = lambda: self.g.match(*args[:2])
        else:
            f = lambda: self.g.match(*args)
        def ask():
            if style % 4 == 3:       # two readings at once, and one that is never finished
                a, b = iter(f()), iter(f())
                self.open.append(f())
                next(iter(self.open[-1]), None)
                self.open = self.open[-3:]
                got, other = [], []
                for t in a:
                    got.append(self.w.toks(t))
                    other += [self.w.toks(x) for x in [next(b, None)] if x is not None]
                other += [self.w.toks(x) for x in b]
                if vf.canon(got) != vf.canon(other): raise AssertionError
                return got
            return [self.w.toks(t) for t in f()]
        v, ex = vf.outcome(ask)
        return v if ex is None else [["!", ex, "!"]]

    def listing(self, name):
        v, ex = vf.outcome(lambda: [self.w.tok(t, name[0]) for t in getattr(self.g, name)()])
        return v if ex is None else ["!" + ex]

    def observe(self, patterns, mem, style=0, see=None):
        """What can be seen of the graph; with see, only these clauses are looked at."""
        want = lambda c: see is None or c in see
        n, ex, arr, ex2 = 0, None, [], None
        if want("size"): n, ex = vf.outcome(lambda: len(self.g))
        if want("snapshot"):
            def take():
                a = self.g.toArray()
                got = [self.w.toks(t) for t in a]
                self.snaps = (self.snaps + [(a, got)])[-4:]
                return got
            arr, ex2 = vf.outcome(take)
        listing = lambda n: self.listing(n) if want(n) else []
        return {"len": n if ex is None else -1,
                "iter": self.state(self.g) if want("iteration") else [],
                "arr": arr if ex2 is None else [["!", ex2, "!"]],
                "mem": [{"t": t, "r": vf.outcome(lambda: self.w.triple(t) in self.g)[0] is True} for t in mem] if want("membership") else [],
                "q": [{"p": p, "r": self.match(p, style)} for p in patterns] if want("match") else [],
                "subj": listing("subjects"), "pred": listing("predicates"), "obj": listing("objects"),
                "snaps": [{"was": was, "now": [self.w.toks(t) for t in a]} for a, was in self.snaps] if want("kept snapshot") else [],
                "kept": [{"was": was, "now": self.probe(g, pats)} for g, was, pats in self.kept] if see is None else []}


def exact(got, want):
    return len(got) == len(want) and vf.canon(got) == vf.canon(want)


ALL = ("size", "iteration", "snapshot", "membership", "match", "subjects", "predicates", "objects", "kept snapshot")


def glimpse(rng):
    """The clauses looked at after a step: all, a few, or none at all."""
    k = rng.random()
    return set(ALL) if k < .2 else set() if k < .5 else set(rng.sample(ALL, rng.choice([1, 1, 2, 3])))


def compare(obs, res, want_res, exp, see=None):
    """Clauses of an observation that differ from the specification's expectation."""
    want = exp["s"]
    seen = lambda c: see is None or c in see
    bad = []
    if res != want_res: bad.append(("outcome", want_res, res))
    if seen("size") and obs["len"] != len(want): bad.append(("size", len(want), obs["len"]))
    if seen("iteration") and not exact(obs["iter"], want): bad.append(("iteration", want, obs["iter"]))
    if seen("snapshot") and not exact(obs["arr"], want): bad.append(("snapshot", want, obs["arr"]))
    ws = {tuple(t) for t in want}
    for m in obs["mem"]:
        if m["r"] != (tuple(m["t"]) in ws): bad.append(("membership", m["t"], m["r"]))
    for q in obs["q"]:
        if not exact(q["r"], exp["m"][tuple(q["p"])]): bad.append(("match", {"pattern": q["p"], "want": exp["m"][tuple(q["p"])]}, q["r"]))
    for k, c in (("subj", "subjects"), ("pred", "predicates"), ("obj", "objects")):
        if seen(c) and not exact(obs[k], exp[k]): bad.append((c, exp[k], obs[k]))
    for k in obs["snaps"]:
        if not exact(k["now"], k["was"]): bad.append(("kept snapshot", k["was"], k["now"]))
    for k in obs["kept"]:
        if not all(exact(x, y) for x, y in zip(k["now"], k["was"])): bad.append(("operand", k["was"], k["now"]))
    return bad


def replay_spec(c, prop):
    """Every transition of the exhaustively explored model, in the real Graph."""
    res, recs = vf.explore("MCGraphStore")
    c.model(res)
    exp, trans = {}, []
    for r in recs:
        if r["k"] == "o":
            r["m"] = {tuple(x["p"]): x["r"] for x in r["m"]}
            exp[vf.canon(r["s"])] = r
        else:
            trans.append((vf.canon(r["f"]), r["a"], vf.canon(r["t"])))
    pats = sorted(next(iter(exp.values()))["m"])
    alltr = sorted({t for e in exp.values() for t in map(tuple, e["s"])})
    c.cov["spec_transitions"] = len(trans)
    walks = list(vf.edge_cover(trans, vf.canon([]), c.rng, maxlen=c.pick(80, 300)))
    jobs = [(i, walks[j::4]) for i in range(len(list(worlds()))) for j in range(4)]

    def replay(c, job):
        name, w = list(worlds())[job[0]]
        for walk in job[1]:
            d = Driver(w)
            done = []
            sparse = c.rng.random() < .6
            for n, (f, a, t) in enumerate(walk):
                style = c.rng.randrange(12)
                r = d.apply(a["op"], a["arg"], style)
                done.append([a["op"], a["arg"], a["res"]])
                last = n == len(walk) - 1
                see = None if last or n % 12 == 11 or not sparse else glimpse(c.rng)
                obs = d.observe(pats if last else c.rng.sample(pats, 7), alltr if last else c.rng.sample(alltr, 3), style, see)
                bad = [b for b in compare(obs, r, a["res"], exp[t], see) if b[0] in MINE[prop]]
                if bad:
                    c.violation("graph departs from the specification (%s terms)" % name,
                                {"clause": bad[0][0], "want": bad[0][1], "got": bad[0][2], "history": done})
                    break
            c.add("traces_validated_against_impl")
            c.add("steps_replayed", len(done))
            if c.enough():
                return
        c.sample({"world": name, "walks": len(job[1]), "last_history": done[-4:]})
    c.parallel(replay, jobs)


def record(c, w, spec, n, bulk=0):
    """A history of several graphs: each is changed, queried, merged, left alone and come back to."""
    rng = c.rng
    d = Driver(w)
    ev = []
    S, P, O = spec
    cur, ids = 0, {id(d.g): 0}
    def triple():
        cur = d.state(d.g) if rng.random() < .55 else None
        if cur:
            return list(rng.choice(cur))
        return [rng.choice(S), rng.choice(P), rng.choice(O)]
    def pat():
        t = triple()
        return [x if rng.random() < .5 else WILD for x in t]
    full = rng.random() < .3
    for k in range(n):
        op = rng.choices(["add", "remove", "addAll", "removeMatches", "merge", "addSelf", "query", "switch"], [8, 6, 2, 2, 1, .5, 2, 1.5])[0]
        style = rng.randrange(12)
        other, new = -1, -1
        if op in ("add", "remove"): arg = [triple()]
        elif op in ("addAll", "merge"):
            arg = [triple() for _ in range(rng.randrange(bulk // 2, bulk) if bulk and k % 3 == 0 else rng.randrange(5))]
            if rng.random() < .3:
                other = rng.randrange(len(d.regs))
                arg, style = d.state(d.regs[other]), str(other)
            if op == "merge":
                new = len(d.regs)
                if other < 0: other, new = new, new + 1
        elif op == "removeMatches":
            p = pat()
            while p.count(WILD) == 3 and rng.random() < .9: p = pat()
            arg = [p]
        elif op == "switch":
            new = rng.randrange(len(d.regs))
            arg, style = [], str(new)
        else: arg = []
        if op == "addAll" and style == str(d.regs.index(d.g)): op, style = "addSelf", 0
        res = d.apply(op, arg, style)
        see = set(ALL) if full or k % 20 == 19 else glimpse(rng)
        st = style if isinstance(style, int) else 0
        obs = d.observe([pat() for _ in range(6)] + [[WILD] * 3] if "match" in see else [], [triple() for _ in range(4)] if "membership" in see else [], st, see)
        kept = []
        for i in rng.sample(range(len(d.regs)), min(2, len(d.regs))) if rng.random() < .4 else ():
            pats = d.around(triple(), *d.state(d.regs[i])[:1])
            got = d.probe(d.regs[i], pats)
            kept.append({"id": i, "now": got[0], "q": [{"p": p, "r": r} for p, r in zip(pats, got[1:])],
                         "subj": got[-3], "pred": got[-2], "obj": got[-1]})
        e = {"op": op, "arg": arg, "res": res, "other": other, "new": new, "see": sorted(see)}
        e.update(obs)
        e["kept"] = kept
        ev.append(e)
        if res == "alias" or (op == "merge" and res != "new"):
            break
    return {"ev": ev}


def big_worlds(rng):
    e = "http://example.com/"
    mk = {}
    for i in range(4):
        mk["i%d" % i] = iri(e + "n%d" % i)
        mk["b%d" % i] = bn()
    for j, (v, la, dt) in enumerate([("x", None, None), ("x", "en", None), ("x", "en-gb", None), ("x", None, XSD + "string"),
                                     ("", None, None), ("5", None, XSD + "integer"), ("05", None, XSD + "integer"), (e + "n0", None, None)]):
        mk["l%d" % j] = lit(v, la, dt)
    mk["i4"] = iri(""); mk["i5"] = iri("x")
    iris = [k for k in mk if k[0] == "i"]
    bns = [k for k in mk if k[0] == "b"]
    lits = [k for k in mk if k[0] == "l"]
    return World(mk), (iris + bns, iris[:4] + ["i4"], iris + bns + lits)


def trace_check(c, prop):
    runs = []
    for i in range(c.pick(60, 600)):
        w, spec = big_worlds(c.rng)
        if i % 3 == 0:
            spec = tuple(x[:2] + x[-2:] for x in spec)
        runs.append(record(c, w, spec, c.pick(60, 120)))
    for i in range(c.pick(6, 30)):
        w, spec = big_worlds(c.rng)
        runs.append(record(c, w, spec, c.pick(16, 40), bulk=c.rng.choice([40, 150, 300])))
    res, bad = vf.validate("TraceGraphStore", runs)
    c.model(res)
    c.add("traces_validated_against_impl", len(runs))
    c.add("events_validated", sum(len(r["ev"]) for r in runs))
    c.sample({"trace": [[e["op"], e["arg"], e["res"]] for e in runs[0]["ev"][:5]]})
    for t, i, clause in bad:
        if clause in MINE[prop] and not c.enough():
            c.violation("recorded history is not a behaviour of GraphStore",
                        {"clause": clause, "event": runs[t]["ev"][i], "history": [[e["op"], e["arg"], e["res"]] for e in runs[t]["ev"][:i + 1]]})


def run(c, prop):
    c.assumptions += ["terms are compared through pymantic's own equality (C27 checks that)"]
    replay_spec(c, prop)
    if not c.enough():
        trace_check(c, prop)


if __name__ == "__main__":
    prop = sys.argv[1]
    vf.main(prop, lambda c: run(c, prop))
