"""C30: the formats against each other, with spec/Formats.tla reading and carrying."""
import io, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from rdfio import *
import jsonld, ntriples, turtle, turtleout
from turtle import norm
from pymantic.parsers import jsonld_parser, nquads_parser, ntriples_parser, turtle_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, Profile, Quad, RDFEnvironment, Triple, q_as_t, t_as_q
from pymantic.serializers import serialize_nquads, serialize_ntriples, serialize_turtle

PARSERS = {"nt": ntriples_parser, "nq": nquads_parser, "ttl": turtle_parser}
NAME = {"nt": "N-Triples", "nq": "N-Quads", "ttl": "Turtle"}


def statements(g, ids=None, quads=False):
    """What is held, as a set; quads of the default graph as triples."""
    return {tuple(norm(t) for t in st if not (quads and t == ("d",))) for st in proj_all(g, ids)}


def read(r, f, text):
    p = PARSERS[f]
    k = r.randrange(5)
    if k == 0: return p.parse_string(text)
    if k == 1: return p.parse(io.StringIO(text, newline=""))
    if k == 2: return p.parse(io.BytesIO(text.encode()))
    if k == 3: return p.parse_string(text.encode())
    return p.parse(text)


def expect(c, what, want, got, ex, info):
    if ex is not None: c.violation("%s: rejected" % what, dict(info, error=ex))
    elif iso(want, got) is None: c.violation("%s: other statements" % what, dict(info, want=sorted(want, key=repr), got=sorted(got, key=repr)))


# ---------------------------------------------------------------- one document, several readers
def enumerated(c):
    scs = [x for x in ntriples.scenarios(c) if not x["q"]]
    if not c.thorough():
        scs = [dict(x, n=min(x["n"], 3), alpha=x["alpha"] if len(x["alpha"]) < 40 else x["alpha"]) for x in scs]
        scs = [dict(x, n=2) if len(x["alpha"]) > 16 and x["n"] > 2 else x for x in scs]
    d = vf.tempfile.mkdtemp(prefix="vf_sc_")
    try:
        path = os.path.join(d, "sc.ndjson")
        with open(path, "w") as f:
            for x in scs: f.write(json.dumps(x) + "\n")
        res, recs = vf.explore("MCFormats", env={"TRACE": path}, timeout=3000)
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.model(res)
    docs = {"".join(map(chr, x["text"])): x for x in recs}
    c.cov["documents_of_the_specification"] = len(docs)
    items = sorted(docs.items())

    def part(c, k):
        for text, x in items[k::16]:
            every(c, text, ["nt", "nq"] + ["ttl"] * x["ttl"], set(from_spec_all(x["out"])))
            if c.enough(): return
    c.parallel(part, range(16))


def every(c, text, readers, want):
    for f in readers:
        got, ex = vf.outcome(read, c.rng, f, text)
        c.add("traces_validated_against_impl")
        expect(c, "%s as %s" % ("N-Triples" if "nt" in readers else NAME[readers[0]], NAME[f]), want, None if ex else statements(got, None, f == "nq"), ex, {"text": text})


def colon_free(out): return not any(t[0] == "b" and ":" in t[1] for st in out for t in st)


# ---------------------------------------------------------------- statements carried along
def sources(r):
    """(statements to begin with as a graph or dataset)"""
    k = r.random()
    if k < .35:
        ts, _, _ = turtleout.random_case(r)
        g = Graph()
        for t in ts: g.add(t)
        return g
    if k < .5:
        p, g = ntriples.Pool(r), Graph()
        for _ in range(r.randrange(9)): g.add(Triple(p.subj(), p.iri(), p.obj()))
        return g
    if k < .6: return vf.outcome(nquads_parser.parse, ntriples.rnd_doc(r, True))[0]
    if k < .7: return vf.outcome(ntriples_parser.parse, ntriples.rnd_doc(r, False))[0]
    if k < .88: return vf.outcome(turtle_parser.parse, turtle.TextGen(r).text(), **({"base": "http://base.example/d/"} if True else {}))[0]
    names = jsonld.Names({})
    doc = jsonld.random_doc(r, r.choice([4, 12, 30]), ["b0", "b1"])
    return vf.outcome(jsonld_parser.parse_json, jsonld.Render(r, names).document(jsonld.tree(doc)))[0]


def write(r, f, x):
    out = io.StringIO()
    if f == "nt": serialize_ntriples(x, out)
    elif f == "nq": serialize_nquads(x, out)
    else:
        kw = {}
        if r.random() < .4:
            kw["profile"] = Profile()
            for p, n in list((turtleout.prefix_map(r)).items()): kw["profile"].setPrefix(p, n)
            for p, n in (("rdf", turtle.RDF), ("xsd", turtle.XSD)): kw["profile"].setPrefix(p, n)
        if r.random() < .3: kw["base"] = r.choice(["http://e.example/", "http://e.example/x", "urn:a:"])
        serialize_turtle(x, out, **kw)
    return out.getvalue()


def in_dataset(r, g):
    """The graph in a dataset along with others, and its name there."""
    ds, name = Dataset(), r.choice([None, None, NamedNode("urn:g1"), NamedNode("http://g.example/a"), BlankNode()])
    if name is not None and r.random() < .5:
        if isinstance(name, NamedNode) and r.random() < .5:
            h = Graph(name)
            for t in g: h.add(t)
            ds.add_graph(h)
        else: ds.add_graph(g, name)
    else:
        for t in g: ds.add(t_as_q(name, t))
    if r.random() < .5:
        for t in list(g)[:3]: ds.add(t_as_q(r.choice([NamedNode("urn:g2"), None] if name is not None else [NamedNode("urn:g2")]), t))
    return ds, name


def out_of_dataset(ds, name):
    g = Graph()
    for q in list(ds.match(graph=name)) if name is not None else [q for q in ds if q.graph is None]: g.add(q_as_t(q))
    return g


def chain(r, k, steps):
    """Statements carried from format to format: what each step wrote and read."""
    cur = None
    while cur is None: cur = sources(r)
    for _ in range(k):
        f = "nq" if isinstance(cur, Dataset) else r.choice(["nt", "nt", "ttl", "ttl", "nq"])
        name = "none"
        if f == "nq" and not isinstance(cur, Dataset): cur, name = in_dataset(r, cur)
        ids = Ids()
        before = statements(cur, ids, f == "nq")
        text, ex = vf.outcome(write, r, f, cur)
        step = {"f": f, "before": before, "text": text, "ex": ex, "back": {}, "name": "none"}
        steps.append(step)
        if ex is not None: return
        if statements(cur, ids, f == "nq") != before: step["ex"] = "the statements changed"; return
        may = [f]
        if f == "nt" or f == "nq" and all(len(t) == 3 for t in before): may = [f] + ["nq", "nt"][f == "nq":][:1] + ["ttl"] if f == "nt" else ["nq", "nt", "ttl"]
        step["readers"] = may
        gs = {}
        for x in may:
            gs[x], ex = vf.outcome(read, r, x, text)
            step["back"][x] = (None if ex else statements(gs[x], None, x == "nq"), ex)
            if ex is not None: return
        nxt = r.choice(may)
        cur = gs[nxt]
        if isinstance(cur, Dataset):
            graphs = sorted({q.graph for q in cur if q.graph is not None}, key=lambda x: isinstance(x, BlankNode))
            # what was put under a name is taken out under it
            if name != "none" and not isinstance(name, BlankNode):
                cur = out_of_dataset(cur, name)
                step["taken"] = (statements(cur), "" if name is None else str(name))
            elif r.random() < .7: cur = out_of_dataset(cur, r.choice(graphs + [None]))
        elif r.random() < .2: cur.remove(next(iter(cur))) if len(cur) else None


def odd(st):
    """IRIs that the formats do not have, or that are relative."""
    def bad(i): return not i.partition(":")[1] or not i[:1].isascii() or not i[:1].isalpha() or not i.partition(":")[0].replace("+", "a").replace("-", "a").replace(".", "a").isalnum() or not i.partition(":")[0].isascii() or any(ch in '<>"{}|^`\\' or ord(ch) < 33 for ch in i)
    return any(t[0] == "i" and bad(t[1]) or t[0] == "l" and t[3] and bad(t[3]) for t in st)


def carried(c, n):
    import pickle, tempfile
    d = tempfile.mkdtemp(prefix="vf_ch_")
    try:
        def part(c, k):
            steps = []
            for _ in range(n // 8): chain(c.rng, c.rng.choice([1, 2, 3, 5]), steps)
            with open(os.path.join(d, str(k)), "wb") as f: pickle.dump(steps, f)
        c.parallel(part, range(8))
        steps = []
        for p in sorted(os.listdir(d)):
            with open(os.path.join(d, p), "rb") as f: steps += pickle.load(f)
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    kept = []
    for s in steps:
        if any(odd(st) for st in s["before"]): c.add("steps_left_open"); continue
        if s["ex"] is not None:
            c.violation("writing %s: %s" % (NAME[s["f"]], s["ex"]), {"statements": sorted(s["before"], key=repr)})
            if c.enough(): return
            continue
        kept.append(s)
    res, ans = vf.evaluate("EvalFormats", [{"text": codes(s["text"]), "fs": s["readers"], "graph": [[to_spec(t) for t in st] for st in sorted(s["before"], key=repr)]} for s in kept], timeout=3000)
    c.model(res)
    for s, a in zip(kept, ans):
        c.add("traces_validated_against_impl")
        want = set(from_spec_all(a["want"]))
        info = {"format": s["f"], "statements": sorted(s["before"], key=repr), "text": s["text"]}
        for f, m in zip(s["readers"], a["reads"]):
            what = "%s read as %s" % (NAME[s["f"]], NAME[f])
            out = set(from_spec_all(m["out"]))
            if m["amb"] or not m["ok"]: c.violation("%s: the text is not of the grammar" % what, info)
            elif iso(want, out) is None: c.violation("%s: the text denotes other statements" % what, dict(info, want=sorted(want, key=repr), read=sorted(out, key=repr)))
            else:
                got, ex = s["back"].get(f, (None, None))
                if f in s["back"]: expect(c, what, want, got, ex, info)
        if "taken" in s:
            got, name = s["taken"]
            mine = {st[:3] for st in want if (st[3][1] if len(st) == 4 and st[3][0] == "i" else "" if len(st) == 3 else None) == name}
            if iso(mine, got) is None: c.violation("a graph of the dataset has other statements", dict(info, graph=name, want=sorted(mine, key=repr), got=sorted(got, key=repr)))
        if c.enough(): return
    if kept: c.sample({"text": kept[0]["text"], "readers": kept[0]["readers"]})


def random_documents(c, n):
    docs = []
    for i in range(n):
        t = ntriples.rnd_doc(c.rng, False)
        docs.append({"text": codes(t), "fs": ["nt", "nq", "ttl"], "graph": []})
    docs += [{"text": codes(t), "fs": ["nt", "nq", "ttl"], "graph": []} for t in list(ntriples.large_docs(c.rng, False))[:c.pick(4, 30)] if len(t) < 60000]
    res, ans = vf.evaluate("EvalFormats", docs, timeout=3000)
    c.model(res)
    for d, a in zip(docs, ans):
        m = a["reads"][0]
        if m["amb"] or not m["ok"]: c.add("documents_left_open"); continue
        want = set(from_spec_all(m["out"]))
        every(c, "".join(map(chr, d["text"])), ["nt", "nq"] + ["ttl"] * colon_free(want), want)
        if c.enough(): return


def run(c):
    enumerated(c)
    if c.enough(): return
    random_documents(c, c.pick(600, 8000))
    if c.enough(): return
    carried(c, c.pick(1200, 16000))


if __name__ == "__main__":
    vf.main(sys.argv[1], run)
