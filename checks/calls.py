"""C07/C08: blank node scope and rejected documents across parse calls, against spec/ParserCalls.tla."""
import io, json, os, random, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from rdfio import *
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, Quad, Triple

OWN = "http://own.example/d/"
SRC = os.path.realpath(os.path.join(vf.REPO, "src"))
FORMATS = ["nt", "nq", "ttl", "jsonld"]
PARSER = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser, "jsonld": jsonld_parser}
LABELS = ["a", "b", "A", "a.b", "0", "00", "b0", "b1", "a-b", "\u00e9", "x\u00b7", "genid1", "aa", "a_", "c14n0", "B"]
L = lambda v: {"t": "l", "v": v}
A = {"t": "a", "v": "a"}
C = lambda v: {"t": "c", "v": v}


# ---- rendering abstract documents -----------------------------------------------------------------

class Rendered:
    """Concrete form of one abstract call."""

    def __init__(self, rng, fmt, call, n, labels):
        self.fmt, self.call, self.rng, self.n, self.labels = fmt, call, rng, n, labels
        self.base = ""
        self.leaks = rng.random() < .4       # declares the prefix that others use undeclared
        self.nobase = rng.random() < .3      # a Turtle document without any base
        self.within = {}                     # calls made by the stream, by the line it is at
        self.lines = [self.line(i, ln) for i, ln in enumerate(call["doc"])]
        self.oserror = None
        if fmt == "ttl":
            self.head = self.turtle_head()
            self.text = self.head + "".join(self.lines)
        elif fmt == "jsonld":
            self.obj = self.json()
        else:
            self.text = "".join(self.lines)
            if call["kind"] == "lines" and rng.random() < .25:
                for i, ln in enumerate(call["doc"]):
                    if ln["bad"]:
                        self.oserror = i     # the stream itself fails instead
                        break

    def label(self, v):
        return "_:" + self.labels.get(v, v)

    def term(self, x):
        if x["t"] == "l":
            return self.label(x["v"])
        if x["t"] == "a":
            return "[]"
        if self.fmt == "ttl":
            return self.rng.choice(["<%s%s>" % (OWN, x["v"]), "<%s>" % x["v"], "own:" + x["v"]])
        return "<%s%s>" % (OWN, x["v"])

    def pred(self, i, j):
        return "urn:p:%d:%d:%d" % (self.n, i + 1, j + 1)

    def line(self, i, ln):
        r = self.rng
        if self.fmt == "jsonld":
            return ""
        out = []
        for j, st in enumerate(ln["st"]):
            t = [self.term(x) for x in st]
            out.append("%s <%s> %s%s ." % (t[0], self.pred(i, j), t[1], " " + t[2] if len(t) > 2 else ""))
        sep = "\r" if self.fmt != "ttl" else " "
        if ln["bad"]:
            if self.fmt == "ttl":
                out.append(r.choice(["leak:x <urn:p> <urn:o> .", "<urn:s> <urn:p> <urn:\\u0020> .", "<urn:s> <urn:p> .", "[] .",
                                     "<urn:s> a [ <urn:p> leak:x ] .", "<urn:s> <urn:p> ( _:a leak:x ) .", "@prefix x <urn:x> .",
                                     "<urn:s> <urn:p> \"\\x\" .", "<urn:s> <urn:p> <urn:o> ", "} .", "@base <urn:\\u003C> .",
                                     "<urn:s> <urn:p> 'a'^^leak:x ."]))
                if self.leaks:
                    out[-1] = out[-1].replace("leak:", "nowhere:")
                if out[-1].endswith(" "):
                    out.append("?")
            else:
                bad = r.choice(["<urn:s> <urn:p> .", "garbage", "_:a _:b _:c .", '"x" <urn:p> _:a .', "<urn:s> <urn:p> _:a", "_:a <urn:p> \"x .",
                                "<urn:s> <urn:p> \"\\x\" .", "_:a <urn:p> <urn:o> . .", "_:a <urn:p> \"x\"@ .", "_:a <urn:p> \"\\U00110000\" ."])
                return bad + "\n"     # nothing else on an offending line
        if self.fmt != "ttl" and not out:
            out = [r.choice(["", "# c", " "])]
        if r.random() < .003:
            n = r.choice([5000, 9000, 70000, 140000])
            out.append(r.choice(["#" + "x" * n, "\n" * n + "#", " " * n, "# c\n" * (n // 4)]) + "\n")
        s = sep.join(out)
        if self.fmt == "ttl" and self.leaks and r.random() < .5:
            s = "@prefix leak: <http://evil.example/> . " + s
        if self.fmt == "ttl" and self.nobase and i == len(self.call["doc"]) - 1:
            s += " @base <http://evil.example/> ."
        elif self.fmt == "ttl" and not self.nobase and r.random() < .4:
            s += r.choice([" @base <http://evil.example/> . @base <%s> ." % OWN, " @prefix evil: <http://evil.example/> .",
                           " # c\n", " @prefix a: <urn:a:> ."])
        return s + "\n"

    def turtle_head(self):
        r = self.rng
        head = ""
        if self.nobase:
            return "@prefix own: <%s> .\n" % OWN
        if r.random() < .5:
            self.base = OWN
            if r.random() < .3:
                self.base, head = "http://other.example/", "@base <%s> .\n" % OWN
        else:
            head = "@base <%s> .\n" % OWN
        return head + r.choice(["@prefix own: <%s> .\n" % OWN, "PREFIX own: <%s>\n" % OWN, "@prefix own: <> .\n"])

    def json(self):
        graphs = {}
        bad = False
        for i, ln in enumerate(self.call["doc"]):
            bad = bad or ln["bad"]
            for j, st in enumerate(ln["st"]):
                g = self.jid(st[2]) if len(st) > 2 else "@default"
                s, o = self.jnode(st[0]), self.jnode(st[1])
                s[self.pred(i, j)] = [o]
                graphs.setdefault(g, []).append(s)
        top = []
        for g, nodes in graphs.items():
            if g == "@default":
                top += nodes
            else:
                top.append({"@id": g, "@graph": nodes})
        if bad:
            top.append(self.rng.choice([{"@id": 5, "urn:q": "x"}, {"@id": "_:a", "urn:q": {"@value": 1, "@language": "en"}},
                                        {"@id": "_:a", "urn:q": {"@value": ["x"]}}, {"@context": 5, "urn:q": "x"},
                                        {"@id": "_:b", "@type": 7}]))
        return top

    def jid(self, x):
        return self.label(x["v"]) if x["t"] == "l" else OWN + x["v"]

    def jnode(self, x):
        return {} if x["t"] == "a" else {"@id": self.jid(x)}

    def run(self, sink, gate=None):
        """Make the call; returns (sink, raised?)."""
        p, r = PARSER[self.fmt], self.rng
        try:
            if self.fmt == "jsonld":
                if sink is None and r.random() < .5:
                    return p.document.parse(json.dumps(self.obj)), False
                if sink is None and r.random() < .5:
                    return p.document.parse_file(io.StringIO(json.dumps(self.obj))), False
                return p.parse_json(self.obj, sink), False
            if self.call["kind"] == "text":
                kw = {"base": self.base} if self.base else {}
                how = r.randrange(4)
                if how == 0:
                    return p.parse_string(self.text.encode("utf-8"), sink, **kw), False
                if how == 1:
                    return p.parse_string(self.text, graph=sink, **kw), False
                if how == 2 and self.fmt == "ttl":
                    return p.parse(r.choice([io.StringIO(self.text), io.BytesIO(self.text.encode())]), sink, **kw), False
                return p.parse(self.text, sink, **kw), False
            if gate is None and self.oserror is None and not self.within and r.random() < .5:
                return p.parse(r.choice([io.StringIO(self.text), io.BytesIO(self.text.encode())]), sink), False
            return p.parse(Stream(self, gate), sink), False
        except Exception:
            return sink, True


class Stream:
    """A line stream that asks its gate before every line, and may fail."""

    def __init__(self, rd, gate):
        self.rd, self.gate, self.i = rd, gate, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.gate:
            self.gate()
        if self.i in self.rd.within: self.rd.within.pop(self.i)()
        if self.rd.oserror == self.i:
            raise OSError("stream failed")
        if self.i >= len(self.rd.lines):
            raise StopIteration
        self.i += 1
        return self.rd.lines[self.i - 1]

    def readline(self):
        try:
            return next(self)
        except StopIteration:
            return ""

    def read(self):
        return "".join(self)


# ---- running scenarios and recording what came of them ---------------------------------------------

class Scenario:
    def __init__(self, rng, calls, fmts, with_pre=True):
        self.calls, self.fmts, self.rng = calls, fmts, rng
        labels = dict(zip("abc", rng.sample(LABELS, 3)))
        self.rd = [Rendered(random.Random(rng.randrange(1 << 60)), f, c, n + 1, labels) for n, (c, f) in enumerate(zip(calls, fmts))]
        self.sinks, self.pre = {}, {}
        users = [c["sink"] for c in calls]
        for c, f in zip(calls, fmts):
            if c["sink"] in self.sinks:
                continue
            if users.count(c["sink"]) == 1 and not any(ln["bad"] for ln in c["doc"]) and rng.random() < .3:
                self.sinks[c["sink"]] = None          # let the parser make it
                continue
            ds = f in ("nq", "jsonld")
            s = Dataset() if ds else Graph()
            pre = []
            for k in range(rng.randrange(3) if with_pre else 0):
                t = (rng.choice([BlankNode(), NamedNode("urn:s")]), NamedNode("urn:pre:%d" % k), BlankNode())
                pre.append(Quad(*t, rng.choice([None, NamedNode("urn:g")])) if ds else Triple(*t))
                s.add(pre[-1])
            self.sinks[c["sink"]] = s
            self.pre[c["sink"]] = pre
        self.raised = [None] * len(calls)
        for n, c in enumerate(calls):
            o = c["within"] - 1
            if o >= 0: self.rd[o].within.setdefault(rng.randrange(len(calls[o]["doc"]) + 1), lambda n=n: self.call(n))

    def call(self, n, gate=None):
        if self.raised[n] is not None: return      # made within another call
        k = self.calls[n]["sink"]
        g, self.raised[n] = self.rd[n].run(self.sinks[k], gate)
        if self.sinks[k] is None:
            self.sinks[k] = g

    def record(self):
        """The event for TraceParserCalls."""
        ids = Ids()
        got, before = [], True
        for k, s in sorted(self.sinks.items()):
            pre = list(self.pre.get(k, []))
            for st in (s if s is not None else []):
                if any(st == t for t in pre):
                    pre = [t for t in pre if t != st]
                    continue
                p = str.__str__(st.predicate).split(":") if isinstance(st.predicate, NamedNode) else ["?"]
                id_ = [0, 0, 0]
                if p[:2] == ["urn", "p"] and len(p) == 5:
                    id_ = [int(x) for x in p[2:]]
                terms = [st.subject, st.object] + ([st.graph] if len(st) == 4 else [])
                nodes = []
                for x in terms:
                    if isinstance(x, BlankNode): nodes.append("n%d" % ids(x))
                    elif isinstance(x, NamedNode) and str.__str__(x) in ("x", "y", "g"): nodes.append("c" + x)
                    elif isinstance(x, NamedNode) and x.startswith(OWN): nodes.append("c" + x[len(OWN):])
                    elif x is None and len(st) == 4: continue
                    else: nodes.append("?" + repr(x))
                c = self.calls
                ok = id_[0] and id_[0] <= len(c) and id_[1] <= len(c[id_[0] - 1]["doc"]) and id_[2] <= len(c[id_[0] - 1]["doc"][id_[1] - 1]["st"]) \
                    and len(c[id_[0] - 1]["doc"][id_[1] - 1]["st"][id_[2] - 1]) == len(nodes)
                got.append({"sink": k, "id": id_ if ok else [0, 0, 0], "nodes": nodes if ok else []})
            before = before and not pre
        return {"ev": [{"calls": self.calls, "raised": self.raised, "sinks": sorted(self.sinks), "got": got, "before": before}]}

    def story(self):
        return [{"format": f, "call": c, "text": getattr(r, "text", None) or getattr(r, "obj", None)} for f, c, r in zip(self.fmts, self.calls, self.rd)]


def rnd_call(r, fmt, thr, sink, lines=None, bad=None, kind=None):
    kind = kind or (r.choice(["text", "lines"]) if fmt in ("nt", "nq") else "text")
    def st():
        anon = fmt in ("ttl", "jsonld")
        o = lambda: r.choice([L("a"), L("b"), L("a"), L("c"), C("x")] + ([A] if anon else []))
        s = [o(), o()]
        if fmt in ("nq", "jsonld") and r.random() < .6:
            s.append(r.choice([L("a"), L("b"), C("g")]))
        if fmt == "jsonld" and all(x["t"] == "c" for x in s[:2]):
            s[0] = L("a")
        return s
    n = r.randrange(4) if lines is None else lines
    doc = [{"bad": False, "st": [st() for _ in range(r.choice([1, 1, 1, 2, 0]) if fmt in ("nt", "nq") else r.choice([1, 2]))]} for _ in range(n)]
    if bad is None:
        bad = r.random() < .3
    if bad:
        doc.insert(r.randrange(len(doc) + 1), {"bad": True, "st": []})
        if fmt == "ttl" and r.random() < .5:
            doc[[d["bad"] for d in doc].index(True)]["st"] = [st()]
    return {"thr": thr, "kind": kind, "doc": doc, "sink": sink, "within": 0}


def large_call(r, fmt, n, bad):
    """A document of many statements and labels, the early ones used again at the end."""
    kind = r.choice(["text", "lines"]) if fmt in ("nt", "nq") else "text"
    g = lambda i: [r.choice([L("g%d" % (i % 50)), C("g")])] if fmt in ("nq", "jsonld") and i % 3 else []
    doc = [{"bad": False, "st": [[L("n%d" % i), r.choice([C("x"), L("n%d" % r.randrange(i + 1))])] + g(i)]} for i in list(range(n)) + [0, 1, n // 2]]
    if bad: doc.insert(r.choice([len(doc), len(doc) // 2]), {"bad": True, "st": []})
    return {"thr": 1, "kind": kind, "doc": doc, "sink": "large", "within": 0}


def sequential(r, n):
    """Calls one after the other, of one or several formats, often after failures."""
    fmts = [r.choice(FORMATS)] * n if r.random() < .6 else [r.choice(FORMATS) for _ in range(n)]
    share = {}
    calls = []
    for i, f in enumerate(fmts):
        cls = "d" if f in ("nq", "jsonld") else "g"
        sink = share.setdefault(cls, cls + "0") if r.random() < .5 else "%s%d" % (cls, i + 1)
        calls.append(rnd_call(r, f, 1, sink, lines=80 if r.random() < .004 else None))
        outer = [k for k in range(i) if calls[k]["kind"] == "lines"]
        if outer and r.random() < .3:
            k = r.choice(outer)
            if not any(c["within"] == k + 1 for c in calls): calls[i]["within"] = k + 1
    return Scenario(r, calls, fmts)


def verdicts(c, scs, what, clauses):
    res, bad = vf.validate("TraceParserCalls", [s.record() for s in scs])
    c.model(res)
    c.add("traces_validated_against_impl", len(scs))
    for t, _, clause in bad:
        if clause in clauses and not c.enough():
            c.violation(what, {"clause": clause, "calls": scs[t].story(), "result": scs[t].record()["ev"][0]["got"], "raised": scs[t].raised})
    c.sample({"calls": scs[0].story()[:2]})


# ---- interleavings of line streams, as enumerated by TLC -------------------------------------------

class Gate:
    def __init__(self):
        self.go, self.parked = threading.Semaphore(0), threading.Event()
        self.done = False

    def __call__(self):
        self.parked.set()
        self.go.acquire()


def gated(sc, hist):
    """Run a scenario's calls in threads, letting them go on in the order of a schedule."""
    gates = [Gate() for _ in sc.calls]
    bythr = {}
    for n, call in enumerate(sc.calls):
        bythr.setdefault(call["thr"], []).append(n)

    def work(ns):
        for n in ns:
            gates[n]()
            try:
                sc.call(n, gates[n] if sc.calls[n]["kind"] == "lines" else None)
            finally:
                gates[n].done = True
                gates[n].parked.set()
    ths = [threading.Thread(target=work, args=(ns,), daemon=True) for ns in bythr.values()]
    for t in ths:
        t.start()
    for n in hist:
        g = gates[n - 1]
        if not g.parked.wait(.5) or g.done:
            continue
        g.parked.clear()
        g.go.release()
        g.parked.wait(.5)      # until the next line is asked for, or the call is over
    for g in gates:
        for _ in range(50):
            g.go.release()
    for t in ths:
        t.join(20)
    if any(t.is_alive() for t in ths):
        raise vf.MachineryError("calls did not end")


def model_scenarios(c):
    """Small scenarios for exhaustive interleaving; labels shared between the calls."""
    st = lambda *v: {"bad": False, "st": [[L(x) if x in "abc" else C(x) for x in v]]}
    bad = {"bad": True, "st": []}
    docs = [[st("a", "b"), st("b", "a")], [st("a", "a"), bad], [st("a", "b")], [bad], [st("a", "x"), st("a", "b")], []]
    out = []
    call = lambda d, thr, kind, sink, within=0: {"thr": thr, "kind": kind, "doc": d, "sink": sink, "within": within}
    for i, d1 in enumerate(docs):
        for d2 in docs[i:]:
            for k in ("lines", "text"):
                out.append([call(d1, 1, "lines", "g0"), call(d2, 2, k, "g0")])
    for d1 in docs[:3]:
        for d2 in docs[:2]:
            out.append([call(d1, 1, "lines", "g0"), call(d2, 1, "lines", "g0"), call(docs[0][:1], 2, "lines", "g0")])
    out.append([call(docs[0][:1], t, "lines", "g0") for t in (1, 2, 3)])
    for d1 in docs:                    # the second made within the first
        for d2 in docs:
            for k in ("lines", "text"):
                out.append([call(d1, 1, "lines", "g0"), call(d2, 1, k, "g0", 1)])
    return out


def interleavings(c):
    scs = model_scenarios(c)
    d = vf.tempfile.mkdtemp(prefix="vf_sc_")
    try:
        path = os.path.join(d, "sc.ndjson")
        with open(path, "w") as f:
            for x in scs:
                f.write(json.dumps(x) + "\n")
        res, recs = vf.explore("MCParserCalls", env={"TRACE": path})
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.model(res)
    c.cov["spec_schedules"] = len(recs)
    c.rng.shuffle(recs)
    recs = recs[:c.pick(2000, 20000)]

    def replay(c, part):
        done = []
        for r in part:
            fmt = c.rng.choice(["nt", "nq"])
            sc = Scenario(c.rng, scs[r["sc"] - 1], [fmt] * len(scs[r["sc"] - 1]))
            if any(x["within"] for x in sc.calls):
                sc.rd[0].within = {r["hist"].index(2) - 1: lambda: sc.call(1)}      # where the schedule has it begin
                sc.call(0)
                sc.call(1)
            else:
                gated(sc, r["hist"])
            done.append(sc.record()["ev"][0])
            done[-1]["story"] = sc.story()
        RESULT = {"done": done}
        c.samples.append(RESULT)
    # the workers hand the recorded events back as samples
    keep = c.samples
    c.samples = []
    lim = c.sample
    c.sample = lambda x, limit=0: c.samples.append(x)
    c.parallel(replay, [recs[i::8] for i in range(8)])
    c.sample = lim
    evs = [e for s in c.samples for e in s["done"]]
    c.samples = keep
    stories = [e.pop("story") for e in evs]
    res, bad = vf.validate("TraceParserCalls", [{"ev": [e]} for e in evs])
    c.model(res)
    c.add("traces_validated_against_impl", len(evs))
    for t, _, clause in bad:
        if not c.enough():
            c.violation("interleaved calls disturb each other", {"clause": clause, "calls": stories[t], "result": evs[t]["got"], "raised": evs[t]["raised"]})


# ---- fine-grained interleaving of any parser: switches at lines of the code under test -------------

class Baton:
    """Lets one thread run at a time and passes on at random points of the traced code."""

    def __init__(self, rng, p, n):
        self.rng, self.p = rng, p
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.cur = rng.randrange(n)
        self.count = 0
        self.switches = 0

    def wait(self, me):
        while self.cur != me:
            k = self.count
            if not self.cond.wait(.2) and self.count == k:
                self.cur = me        # the holder is blocked elsewhere

    def enter(self, me):
        with self.cond:
            self.wait(me)

    def point(self, me):
        with self.cond:
            self.count += 1
            if self.cur == me and self.rng.random() < self.p:
                others = sorted(self.alive - {me})
                if others:
                    self.cur = self.rng.choice(others)
                    self.switches += 1
                    self.cond.notify_all()
            self.wait(me)

    def leave(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.alive and self.cur == me:
                self.cur = self.rng.choice(sorted(self.alive))
            self.count += 1
            self.cond.notify_all()


def fine(sc, p):
    bythr = {}
    for n, call in enumerate(sc.calls):
        bythr.setdefault(call["thr"], []).append(n)
    b = Baton(random.Random(sc.rng.randrange(1 << 60)), p, len(bythr))

    def work(me, ns):
        def local(frame, event, arg):
            b.point(me)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                b.point(me)
                return local
            return None
        b.enter(me)
        try:
            sys.settrace(tracer)
            for n in ns:
                sc.call(n)
        finally:
            sys.settrace(None)
            b.leave(me)
    ths = [threading.Thread(target=work, args=(i, ns), daemon=True) for i, ns in enumerate(bythr.values())]
    for t in ths: t.start()
    for t in ths: t.join(60)
    if any(t.is_alive() for t in ths):
        raise vf.MachineryError("calls did not end")
    return b.switches


def concurrent(r):
    fmt = r.choice(FORMATS)
    n = r.choice([2, 2, 3])
    calls, fmts = [], []
    for t in range(n):
        for k in range(r.choice([1, 1, 2])):
            f = fmt if r.random() < .8 else r.choice(FORMATS)
            calls.append(rnd_call(r, f, t + 1, "s%d" % len(calls), lines=r.choice([1, 2, 3])))
            fmts.append(f)
    return Scenario(r, calls, fmts, with_pre=False)


def fine_grained(c):
    def run(c, k):
        scs = []
        for _ in range(c.pick(40, 600)):
            sc = concurrent(c.rng)
            c.add("thread_switches", fine(sc, c.rng.choice([.02, .1, .3])))
            e = sc.record()["ev"][0]
            e["story"] = sc.story()
            scs.append(e)
        c.samples.append({"done": scs})
    keep, c.samples = c.samples, []
    lim = c.sample
    c.sample = lambda x, limit=0: c.samples.append(x)
    c.parallel(run, range(8))
    c.sample = lim
    evs = [e for s in c.samples for e in s["done"]]
    c.samples = keep
    stories = [e.pop("story") for e in evs]
    res, bad = vf.validate("TraceParserCalls", [{"ev": [e]} for e in evs])
    c.model(res)
    c.add("traces_validated_against_impl", len(evs))
    for t, _, clause in bad:
        if not c.enough():
            c.violation("interleaved calls disturb each other", {"clause": clause, "calls": stories[t], "result": evs[t]["got"], "raised": evs[t]["raised"]})


def run(c, prop):
    n = c.pick(1500, 15000)
    scs = []
    # large documents, some rejected, and a small one after each
    for f in FORMATS:
        for size in c.pick([c.rng.choice([1100, 3000])], [1100, 3000, 20000]):
            for bad in (False, True):
                if f == "jsonld" and size > 3000: continue
                calls = [large_call(c.rng, f, size if f in ("nt", "nq") else min(size, 5000), bad), rnd_call(c.rng, f, 1, "small")]
                scs.append(Scenario(c.rng, calls, [f, f]))
    for sc in scs:
        for k in range(len(sc.calls)): sc.call(k)
    for i in range(n):
        sc = sequential(c.rng, c.rng.choice([1, 2, 3, 4]))
        for k in range(len(sc.calls)):
            sc.call(k)
        scs.append(sc)
    if prop == "C08":
        verdicts(c, scs, "a rejected document has an effect, or a later one suffers", {"rejected", "effect", "before"})
        return
    verdicts(c, scs, "blank node labels are not scoped to the call", {"scope"})
    if not c.enough(): interleavings(c)
    if not c.enough(): fine_grained(c)


if __name__ == "__main__":
    prop = sys.argv[1]
    vf.main(prop, lambda c: run(c, prop))
