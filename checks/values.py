"""C27: terms and statements as values against spec/Terms.tla and spec/Xsd.tla."""
import copy, datetime, os, pickle, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from rdfio import codes
from pymantic.primitives import BlankNode, Literal, NamedNode, Quad, RDFEnvironment, Triple, q_as_t, t_as_q

NO = {"k": "-", "v": "-", "g": "-", "d": "-"}
XSD = "http://www.w3.org/2001/XMLSchema#"
ENV = RDFEnvironment()


def plain(s): return str.__str__(s)


class World:
    """Texts for the names of the specification, and its blank nodes."""

    def __init__(self, r, texts):
        self.r, self.texts = r, texts
        self.names = {v: k for k, v in texts.items()}
        self.blanks, self.ids = {}, {}

    def text(self, v): return self.texts.get(v, v)
    def name(self, s): return self.names.get(s, s)

    def term(self, t):
        r = self.r
        if t["k"] == "-": return None
        if t["k"] == "i": return r.choice([NamedNode, ENV.createNamedNode])("".join(list(self.text(t["v"]))))
        if t["k"] == "b":
            if t["v"] not in self.blanks:
                b = r.choice([BlankNode, ENV.createBlankNode])()
                self.blanks[t["v"]] = b
                self.ids[id(b)] = t["v"]
            return self.blanks[t["v"]]
        v, g, d = self.text(t["v"]), None if t["g"] == "-" else self.text(t["g"]), None if t["d"] == "-" else NamedNode(self.text(t["d"]))
        if g is None and d is None and r.random() < .5: return Literal(v)
        if d is None and r.random() < .5: return Literal(v, g)
        if r.random() < .3: return Literal(value=v, language=g, datatype=d)
        return r.choice([Literal, ENV.createLiteral])(v, g, d)

    def value(self, x):
        if x["k"] == "term": return self.term(x["s"])
        t = [self.term(x[k]) for k in "spo"]
        if x["k"] == "triple":
            k = self.r.randrange(3)
            return Triple(*t) if k == 0 else Triple(subject=t[0], predicate=t[1], object=t[2]) if k == 1 else ENV.createTriple(*t)
        g = self.term(x["g"])
        k = self.r.randrange(3)
        return Quad(*t, g) if k == 0 else Quad(subject=t[0], predicate=t[1], object=t[2], graph=g) if k == 1 else ENV.createQuad(*t, g)

    def proj_term(self, t):
        if t is None: return NO
        if isinstance(t, BlankNode):
            if id(t) not in self.ids:
                self.ids[id(t)] = "fresh%d" % len(self.ids)
                self.blanks[self.ids[id(t)]] = t       # keeps it alive
            return {"k": "b", "v": self.ids[id(t)], "g": "-", "d": "-"}
        if isinstance(t, Literal):
            def c(x): return "-" if x is None else self.name(plain(x)) if isinstance(x, str) else repr(x)
            if t.datatype is not None and not isinstance(t.datatype, NamedNode): return dict(NO, v="datatype is no IRI")
            if (t[0], t[1], t[2]) != (t.value, t.language, t.datatype): return dict(NO, v="fields differ from items")
            return {"k": "l", "v": c(t.value), "g": c(t.language), "d": c(t.datatype)}
        if isinstance(t, NamedNode): return {"k": "i", "v": self.name(plain(t)), "g": "-", "d": "-"}
        return dict(NO, v=repr(t)[:60])

    def proj(self, x):
        if isinstance(x, (Triple, Quad)):
            f = ["subject", "predicate", "object"] + (["graph"] if isinstance(x, Quad) else [])
            t = [self.proj_term(getattr(x, a)) for a in f]
            if t != [self.proj_term(a) for a in x]: t[0] = dict(NO, v="fields differ from items")
            return dict(zip("spog", t + [NO]), k="quad" if isinstance(x, Quad) else "triple")
        return {"k": "term", "s": self.proj_term(x), "p": NO, "o": NO, "g": NO}


def make_mapping(x):
    d = x._asdict()
    return type(x)(**d)


def act(w, obj, op, fs, g, r):
    """Perform an action on a real object."""
    def given(f, t):
        if f in ("value", "language"): return None if t["v"] == "-" else w.text(t["v"])
        if f == "datatype": return None if t["v"] == "-" else NamedNode(w.text(t["v"]))
        return w.term(t)
    if op == "copy": return copy.copy(obj)
    if op == "deepcopy": return copy.deepcopy(obj)
    if op == "pickle":
        p = r.randrange(pickle.HIGHEST_PROTOCOL + 1)
        if r.random() < .3: return pickle.loads(pickle.dumps([obj, obj], p))[1]
        return pickle.loads(pickle.dumps(obj, p))
    if op == "make": return r.choice([lambda: type(obj)._make(list(obj)), lambda: type(obj)._make(iter(obj)), lambda: type(obj)(*obj)])()
    if op == "asdict": return make_mapping(obj)
    if op == "replace": return obj._replace(**{f: given(f, t) for f, t in fs})
    if op == "set": return setattr(obj, fs[0][0], given(*fs[0]))
    if op == "del": return delattr(obj, fs[0][0])
    if op == "triple": return q_as_t(obj)
    if op == "quad": return t_as_q(w.term(g), obj)


def blanks(x): return [x[k] for k in "spog" if x[k]["k"] == "b"]


def same_but_blanks(a, b):
    if a["k"] != b["k"]: return False
    m = {}
    for k in "spog":
        if a[k]["k"] == "b" == b[k]["k"]:
            if m.setdefault(a[k]["v"], b[k]["v"]) != b[k]["v"]: return False
        elif a[k] != b[k]: return False
    return len(set(m.values())) == len(m)


TEXTS = [["a", "A", "\u00e1", "c"], ["caf\u00e9", "cafe\u0301", "caf\u00e8", "cafe"], ["http://x/", "http://x", "HTTP://x/", "http://x/#"], ["1", "01", "1.0", "+1"], ["en", "en-us", "EN", "fr"],
         ["%41", "A", "a", "%61"], ["x ", "x", " x", "x\n"], ["None", "none", "-0", "0"], ["\u0000", "", "\U0001f600", "\ud83d"]]


def replay(c, recs):
    """Every transition of the model, and every result against the whole universe."""
    universe = {vf.key(x["to"]): x["to"] for x in recs}
    keys = sorted(universe)

    def part(c, k):
        r = c.rng
        texts = r.choice(TEXTS[:-1])
        m = dict(zip("abc", r.sample(texts, 3)))
        w = World(r, m)
        others = [(kk, w.value(universe[kk])) for kk in keys]
        table = {}
        for kk, o in others: table.setdefault(o if not isinstance(o, str) else ("iri", o), kk)
        for x in recs[k::16]:
            c.add("traces_validated_against_impl")
            obj = w.value(x["from"])
            a = x["act"]
            if a["op"] == "none": res, ex = obj, None
            else: res, ex = vf.outcome(act, w, obj, a["op"], a["fs"], a["g"], r)
            info = {"value": repr(obj), "action": a, "result": repr(res), "error": ex}
            if w.proj(obj) != x["from"]: c.violation("a value was altered", info)
            if x["to"]["k"] == "error" or a["op"] in ("set", "del"):
                if ex is None: c.violation("%s is not refused" % a["op"], info)
                continue
            if ex is not None:
                c.violation("%s fails" % a["op"], info)
                continue
            got = w.proj(res)
            if (a["op"] in ("deepcopy", "pickle") or a["op"] == "copy" and x["to"]["k"] == "term") and blanks(x["to"]):
                if not same_but_blanks(x["to"], got): c.violation("%s gives another value" % a["op"], info)
                continue
            if got != x["to"] or type(res) is not type(obj) and a["op"] not in ("triple", "quad"):
                c.violation("%s gives another value" % a["op"], dict(info, got=got, expected=x["to"]))
                continue
            for kk, o in others:
                same = kk == vf.key(x["to"])
                if (res == o) is not same or (o == res) is not same or (res != o) is same or same and hash(res) != hash(o):
                    if universe[kk]["k"] != x["to"]["k"] or universe[kk]["s"]["k"] != x["to"]["s"]["k"] and x["to"]["k"] == "term":
                        # values of different kinds may hold the same texts
                        if isinstance(res, Literal) != isinstance(o, Literal) and isinstance(res, tuple) and isinstance(o, tuple): continue
                    c.violation("equality or hash is wrong", dict(info, other=repr(o), equal=res == o, unequal=res != o, hashes=[hash(res), hash(o)]))
            if c.enough(): return
        c.sample({"value": repr(obj), "action": a["op"], "result": repr(res)})
    c.parallel(part, range(16))


# ---------------------------------------------------------------- random histories
FIELDS = {"triple": ["subject", "predicate", "object"], "quad": ["subject", "predicate", "object", "graph"]}


def history(c, r, n):
    texts = r.choice(TEXTS) + [r.choice(["", "x", "y" * 50, "\u65e5\u672c"])]
    w = World(r, {})
    nm = lambda: "n" + str(r.randrange(3))

    def iri(): return {"k": "i", "v": r.choice(texts), "g": "-", "d": "-"}
    def blank(): return {"k": "b", "v": nm(), "g": "-", "d": "-"}
    def lit():
        k = r.random()
        return {"k": "l", "v": r.choice(texts), "g": r.choice(texts) if k < .3 else "-", "d": r.choice(texts) if k > .7 else "-"}
    def term(kinds): return r.choice(kinds)()
    def val():
        k = r.choice(["term", "triple", "quad"])
        if k == "term": return {"k": k, "s": term([iri, blank, lit, lit]), "p": NO, "o": NO, "g": NO}
        return {"k": k, "s": term([iri, blank]), "p": iri(), "o": term([iri, blank, lit, lit]), "g": NO if k == "triple" or r.random() < .3 else term([iri, blank])}
    pool, ev = [], []
    for step in range(n):
        e = {"op": "new", "i": 1, "fs": [], "g": NO, "x": {"k": "none", "s": NO, "p": NO, "o": NO, "g": NO}, "exc": ""}
        i = r.randrange(len(pool)) if pool else None
        obj = pool[i] if pool else None
        cur = w.proj(obj) if pool else None
        opts = ["new", "new"]
        if pool:
            opts += ["deepcopy", "pickle"]
            # whether the copy of a blank node by itself is that blank node is left open
            if cur["k"] != "term" or cur["s"]["k"] != "b": opts += ["copy"]
            fields = FIELDS.get(cur["k"]) or (["value", "language", "datatype"] if cur["s"]["k"] == "l" else [])
            if fields: opts += ["make", "asdict", "replace", "replace", "replace", "set", "del"]
            if cur["k"] == "quad": opts += ["triple"]
            if cur["k"] == "triple": opts += ["quad"]
        op = e["op"] = r.choice(opts)
        if op == "new":
            # copies of members on purpose, to have equal ones
            e["x"] = val() if not pool or r.random() < .6 else w.proj(r.choice(pool))
            res, ex = vf.outcome(w.value, e["x"])
        else:
            e["i"] = i + 1
            if op == "replace":
                fs = r.sample(fields, r.randrange(0, len(fields) + 1)) + (["nothing"] if r.random() < .1 else [])
                r.shuffle(fs)
                def given(f):
                    if f in ("value", "language", "datatype"): return {"k": "i", "v": r.choice(texts), "g": "-", "d": "-"}
                    return term({"subject": [iri, blank], "predicate": [iri], "object": [iri, blank, lit], "graph": [iri, blank, lambda: NO]}.get(f, [iri]))
                e["fs"] = [[f, given(f)] for f in fs]
                if {"language", "datatype"} & set(fs) and cur["k"] == "term":
                    # one of the two only
                    keep = r.choice(["language", "datatype"])
                    e["fs"] = [x for x in e["fs"] if x[0] not in ("language", "datatype")] + [[keep, given(keep)], ["datatype" if keep == "language" else "language", dict(NO, k="i")]]
            elif op in ("set", "del"): e["fs"] = [[r.choice(fields), iri()]]
            elif op == "quad": e["g"] = r.choice([iri(), blank(), NO])
            res, ex = vf.outcome(act, w, obj, op, e["fs"], e["g"], r)
        e["exc"] = ex or ""
        if ex is None and op not in ("set", "del"): pool.append(res)
        elif ex is None: pass
        e["pool"] = [w.proj(x) for x in pool]
        last = pool[-1] if pool else None
        kind = lambda x: (type(x) if not isinstance(x, NamedNode) else NamedNode)
        e["eq"] = [j + 1 for j, x in enumerate(pool) if kind(x) is kind(last) and x == last]
        if any(((x == last) is (x != last)) or ((x == last) is not (last == x)) for x in pool): e["eq"] = []
        e["hash"] = [j + 1 for j, x in enumerate(pool) if hash(x) == hash(last)]
        # the same answer from a dictionary
        if len({x for x in pool if kind(x) is kind(last)} | {last}) != len({vf.key(w.proj(x)) for x in pool if kind(x) is kind(last)}): e["eq"] = []
        ev.append(e)
    return {"ev": ev}


def natives(c, r):
    ev = []
    zero = {"i": 1, "fs": [], "g": NO, "x": {"k": "none", "s": NO, "p": NO, "o": NO, "g": NO}, "exc": "", "pool": [], "eq": [], "hash": []}
    for _ in range(c.pick(150, 2000)):
        given = r.choice([None, None, NamedNode(XSD + "string"), NamedNode("http://x/dt"), NamedNode("")])
        make = r.choice([Literal, ENV.createLiteral])
        if r.random() < .5:
            n = r.choice([0, 1, -1, 7, 10, -10, 100, 2 ** 31, -2 ** 63, 10 ** 20, r.randrange(-10 ** 30, 10 ** 30), r.randrange(-1000, 1000), 10 ** r.randrange(90)])
            ds, m = [], abs(n)
            while m or not ds: m, d = divmod(m, 10); ds.insert(0, d)
            e = dict(zero, op="int", neg=n < 0, ds=ds, want=XSD + "integer")
        else:
            tz = r.choice([None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(minutes=r.randrange(-839, 840)))])
            n = datetime.datetime(r.choice([1, 99, 999, 1000, 1970, 2024, 9999]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60),
                                  r.choice([0, 0, 1, 500000, 120, 999999, 100000]), tzinfo=tz)
            off = 0 if tz is None else int(n.utcoffset().total_seconds()) // 60
            e = dict(zero, op="datetime", want=XSD + "dateTime",
                     fields={"ok": True, "y": n.year, "mo": n.month, "d": n.day, "h": n.hour, "mi": n.minute, "s": n.second, "us": n.microsecond, "tz": "none" if tz is None else "some", "off": off})
        if given is not None: e["want"] = str(given)
        l, ex = vf.outcome(lambda: make(n) if given is None else r.choice([lambda: make(n, None, given), lambda: make(n, datatype=given)])())
        if ex is None and isinstance(l, Literal) and isinstance(l.value, str) and isinstance(l.datatype, NamedNode) and l.language is None:
            e["lex"], e["dt"] = codes(plain(l.value)), plain(l.datatype)
        else: e["lex"], e["dt"] = [], "raised %s" % ex
        ev.append(e)
    return [{"ev": ev[i:i + 50]} for i in range(0, len(ev), 50)]


def run(c):
    res, recs = vf.explore("MCTerms", c.pick("MCTerms", "MCTermsDeep"), timeout=1500)
    c.model(res)
    c.cov["transitions_of_the_model_replayed"] = len(recs)
    replay(c, recs)
    if c.enough(): return
    traces = [history(c, c.rng, c.rng.randrange(2, 30)) for _ in range(c.pick(250, 2500))] + natives(c, c.rng)
    res, bad = vf.validate("TraceTerms", traces, timeout=2000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    for t, i, clause in bad[:5]:
        e = traces[t]["ev"][i]
        c.violation("%s: %s" % (e["op"], clause), {"event": e, "before": traces[t]["ev"][i - 1]["pool"] if i else []})


if __name__ == "__main__":
    vf.main(sys.argv[1], run)
