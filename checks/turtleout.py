"""C12: Turtle output read by the specification (TurtleDoc) and by the parser."""
import io, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from rdfio import *
from turtle import norm, text_term, BASES, BOUNDS, RDF, XSD
from pymantic.parsers import turtle_parser
from pymantic.primitives import BlankNode, Graph, Literal, NamedNode, Profile, RDFEnvironment, Triple
from pymantic.serializers import serialize_turtle

N = NamedNode
TRAPS = ["", "\\", '"', '\\"', "\\n", "\\u0041", "\n", "\r\n", '" .\n<a:x> <a:y> <a:z> .', "@en", '"@en', "^^<a:b>", "a\\", "%41",
         "# c", "\\\\u0041", "_:b", "\x00", "\\U0001F600", '"""', "'''", "5", "true", "1.0", "1e0", "a:b", "\t", "\x08\x0c"]
CHARS = list("\x00\x01\x08\t\n\x0b\x0c\r\x1f !\"#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~\x7f\x80\x85\xa0é\u0100\u2028\u2029\ufeff\ud7ff\ue000\uffff\U00010000\U0001F600\U0010ffff")
LEXICAL = ["5", "+5", "-0", "05", "5.", "5.5", ".5", "-.5", "5e1", "5.e1", ".5E-1", "1e", "true", "false", "True", "1", "0", "", " 5", "5 ", "5\n", "٣", "INF", "NaN", "1_0", "0x1", "1.5.5",
           "-", "+", ".", "e1", "1.5e", "5 .", "true ", "truefalse", "−5", "５", "1,5"]


LANGS = ["en", "en-us", "de-1996", "a-b-c0", "EN", "de-AT", "zh-hant-cn-x-private1", "en-x-us", "x-klingon", "i-default", "sl-rozaj-biske-1994", "a-0-b9", "qaa-Qaaa-QM-x-southern", "abcdefgh", "zh-cmn-Hans-CN-u-co-pinyin"]
LIVING = [Graph(), Profile()]    # in use from one case to the next


def forms(triples):
    ids = Ids()
    return {tuple(norm(proj(x, ids)) for x in t) for t in triples}


def round_trips(c, cases):
    """cases: [(triples, {prefix: namespace}, base)]"""
    recs, objs = [], []
    for n, (ts, pre, base) in enumerate(cases):
        how = c.rng.random()
        g, prof = LIVING if how < .15 else (Graph(), c.rng.choice([Profile, Profile, RDFEnvironment])())
        half = len(ts) // 2 if how < .3 else len(ts)
        for t in ts[:half]: g.add(t)
        kw = {}
        if base is not None: kw["base"] = base
        if pre is not None:
            for p in [p for p in prof.prefixes if p not in pre and p not in ("rdf", "xsd")]: del prof.prefixes[p]
            kw["profile"] = prof
            for i, (p, x) in enumerate(pre.items()):
                if i == 1 and how < .3: vf.outcome(serialize_turtle, g, io.StringIO(), **kw)
                prof.setPrefix(p, N(x) if n % 2 else x)
            for p, x in (("rdf", RDF), ("xsd", XSD)):
                if p not in pre: prof.setPrefix(p, x)
        if how < .3: vf.outcome(serialize_turtle, g, io.StringIO(), **kw)    # nothing of it may be remembered
        for t in ts[half:]: g.add(t)
        if n % 7 == 3:
            kw["bnode_name_generator"] = lambda: ("_:%s%d" % ("x.y-" if n % 2 else "é·", i) for i in range(1000))
        f = io.StringIO()
        before = set(g)
        _, ex = vf.outcome(serialize_turtle, g, f, **kw)
        info = {"graph": sorted(forms(ts), key=repr), "prefixes": pre, "base": base}
        if ex is not None or set(g) != before:
            c.violation("Turtle serializer %s" % ("raised" if ex else "changed the graph"), dict(info, error=ex))
            if c.enough(): return
            LIVING[:] = Graph(), Profile()
            continue
        text = f.getvalue()
        if g is LIVING[0]:
            for t in list(g): g.remove(t)
        back, ex = vf.outcome(turtle_parser.parse, text)
        recs.append({"base": [], "text": codes(text)})
        objs.append((dict(info, text=text), forms(ts), ex, None if ex else {tuple(norm(t) for t in st) for st in proj_all(back)}))
    res, ans = vf.evaluate("EvalTurtleDoc", recs, timeout=3000)
    c.model(res)
    for (info, want, ex, back), m in zip(objs, ans):
        c.add("traces_validated_against_impl")
        c.add("statements_written", len(want))
        if m["amb"]: c.violation("Turtle output is ambiguous", info)
        elif not m["ok"]: c.violation("Turtle output is not of the grammar", info)
        else:
            out = {tuple(text_term(x) for x in st) for st in m["out"]}
            if iso(want, out) is None: c.violation("Turtle output denotes another graph", dict(info, read=sorted(out, key=repr)))
            elif ex is not None: c.violation("Turtle output is rejected by the parser", dict(info, error=ex))
            elif iso(want, back) is None: c.violation("Turtle output is read back as another graph", dict(info, read=sorted(back, key=repr)))
        if c.enough(): return
        if m["ok"]: c.add("documents_read_by_specification")
    if objs: c.sample(objs[len(objs) // 2][0])


# ---- cases --------------------------------------------------------------------------------------

def small_graphs(c):
    """Every small graph of the list vocabulary, as TLC enumerates them."""
    res, recs = vf.explore("MCTurtleGraph", c.pick("MCTurtleGraph", "MCTurtleGraphDeep"), timeout=3000)
    c.model(res)
    recs = [r["g"] for r in recs]
    if c.thorough():
        recs = [g for g in recs if len(g) < 4 or c.rng.random() < .12]
    else:
        recs = [g for g in recs if len(g) < 3 or c.rng.random() < .25]
    c.cov["spec_graphs"] = len(recs)
    out = []
    for g in recs:
        w = {"b1": BlankNode(), "b2": BlankNode(), "b3": BlankNode(), "x": N("http://e.example/x"), "p": N("http://e.example/p"), "first": N(RDF + "first"),
             "rest": N(RDF + "rest"), "nil": N(RDF + "nil"), "l": Literal("v")}
        out.append(([Triple(*[w[x] for x in t]) for t in g], None, None))
    return out


class Builder:
    """Random graphs made of lists that are then damaged, shared and nested."""

    def __init__(self, r):
        self.r = r
        self.ts = []
        self.bs = [BlankNode() for _ in range(3)]
        self.nodes = [N("http://e.example/" + x) for x in "xyz"] + self.bs + [N(RDF + "nil"), N(RDF + "first")]
        self.preds = [N("http://e.example/p"), N("http://e.example/q"), N(RDF + "type"), N(RDF + "first"), N(RDF + "rest")]

    def member(self, d):
        r = self.r
        x = r.random()
        if x < .25 and d < 3: return self.list(d + 1)
        if x < .5: return Literal(r.choice(["v", "5", 'a"', ")"]))
        if x < .6: return Literal("5", None, N(XSD + "integer"))
        return r.choice(self.nodes)

    def list(self, d=0):
        r = self.r
        cells = [BlankNode() if r.random() < .95 else r.choice(self.nodes) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        for i, cell in enumerate(cells):
            self.ts.append(Triple(cell, N(RDF + "first"), self.member(d)))
            end = N(RDF + "nil") if r.random() < .95 else r.choice(self.nodes + [Literal("l")])
            self.ts.append(Triple(cell, N(RDF + "rest"), cells[i + 1] if i + 1 < len(cells) else end))
            if r.random() < .05: self.ts.append(Triple(cell, r.choice(self.preds), self.member(d)))
            if r.random() < .04: self.ts.pop(r.randrange(len(self.ts)))
            self.nodes.append(cell) if r.random() < .2 else None
        return cells[0] if cells else N(RDF + "nil")

    def graph(self):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = r.random()
            if x < .5: self.ts.append(Triple(r.choice(self.nodes), r.choice(self.preds[:3]), self.list()))
            elif x < .65: self.ts.append(Triple(self.list() or self.bs[0], r.choice(self.preds[:3]), self.member(0)))
            elif x < .75: self.list()
            else: self.ts.append(Triple(r.choice(self.nodes), r.choice(self.preds), self.member(0)))
        r.shuffle(self.ts)
        return self.ts


def prefix_map(r):
    ns = ["http://e.example/", "http://e.example/x", "http://e.example", "http://e.example/x#", "urn:a:", "urn:a", "http://é.example/", RDF, XSD, "http://e.example/%20", "http://e.example/x/y?z="]
    names = ["", "e", "rdf", "xsd", "é", "a.b", "p-1", "A", "http", "urn", "true", "a", "base", "prefix", "_x"[1:], "p0", "t·"]
    return {r.choice(names): r.choice(ns) for _ in range(r.choice([0, 1, 2, 3, 5]))}


def iris(r, pre, base):
    stems = list(pre.values()) + [base or "http://e.example/", "http://e.example/x", "urn:a:", RDF, XSD, "http://other/"]
    s = r.choice(stems)
    if r.random() < .1 and len(s) > 12: s = s[:-1]
    tail = "".join(r.choice(["a", "b", "0", ".", "-", ":", "/", "#", "?", "%20", "%", "~", "é", "·", "\u0300", "(", ")", "'", "!", "$", "&", "*", "+", ",", ";", "=", "@", "_", "..", "//", "\U0001F600", "[", "]", "\u00a0", "x:y", "type", "\u037e"])
                   for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4])))
    i = s + tail
    return N(i) if ":" in i.split("/")[0] else N("http://e.example/")


def literal(r, iri):
    x = r.random()
    v = r.choice(TRAPS) if r.random() < .35 else "".join(r.choice(CHARS) for _ in range(r.randrange(7)))
    if x < .25: return Literal(v, r.choice(LANGS))
    if x < .5: return Literal(r.choice(LEXICAL), None, N(XSD + r.choice(["integer", "decimal", "double", "boolean", "float", "string", "int"])))
    if x < .65: return Literal(v, None, iri())
    return Literal(v)


def random_case(r):
    pre = prefix_map(r) if r.random() < .8 else None
    base = r.choice(BASES[:-1]) if r.random() < .5 else None
    if r.random() < .4:
        ts = Builder(r).graph()
        return ts, pre, base
    bs = [BlankNode() for _ in range(3)]
    ii = lambda: iris(r, pre or {}, base)
    pool = [ii() for _ in range(4)]
    iri = lambda: r.choice(pool) if r.random() < .5 else ii()
    ts = []
    for _ in range(r.choice([1, 2, 4, 7])):
        s = r.choice(bs) if r.random() < .25 else iri()
        o = r.choice([lambda: r.choice(bs), iri, lambda: literal(r, iri), lambda: literal(r, iri)])()
        ts.append(Triple(s, iri(), o))
    return ts, pre, base


def sweep(c):
    """Every boundary character (all of them in the thorough run) in a string, a local name and an IRI."""
    pts = [x for x in (range(0x110000) if c.thorough() else BOUNDS) if not 0xD800 <= x <= 0xDFFF]
    bad = set(map(ord, "<>\"{}|^`\\")) | set(range(33))
    for i in range(0, len(pts), 60):
        block = pts[i:i + 60]
        ts = [Triple(N("urn:s"), N("urn:p"), Literal("a" + chr(x))) for x in block] + [Triple(N("urn:s"), N("urn:q"), Literal(chr(x) + "a")) for x in block[::7]]
        ts += [Triple(N("urn:s"), N("urn:p"), N("http://n/" + p + chr(x) + q)) for x in block if x not in bad for p, q in c.pick([("", ""), ("a", ""), ("a", "b")], [("a", ""), ("", "")])]
        if i < 70000 or i % 3000 == 0:
            yield ts, {"n": "http://n/"}, None
    tails = ["", "a", ".", "a.", ".a", "-", "a-", "%", "%4", "%41", "%zz", ":", "a:", "::", "/", "a/b", "#", "?", "é.", "~", "_", "0", "00", "'", "(", "!", "a..b", "a.-", "·", "a·"]
    for a in tails:
        for b in ["", ".", "a", "-", "%41", "/", "~"]:
            x = N("http://n/" + a + b)
            yield [Triple(x, x, x), Triple(x, x, Literal("v", None, x))], {c.rng.choice(["n", "", "a.b", "rdf"]): "http://n/"}, c.rng.choice([None, "http://n/", "http://n", "http://n/a"])
    for i, v in enumerate(LEXICAL):
        for d in ["integer", "decimal", "double", "boolean", "string", "float"]:
            dt = N(XSD + d)
            yield [Triple(N("urn:s"), N("urn:p"), Literal(v, None, dt)), Triple(N("urn:s"), N("urn:p"), Literal("x", None, dt)), Triple(N("urn:s"), N(RDF + "type"), N("urn:o"))], {}, None
    for b in BASES[:-1]:
        for t in ["", "x", "/x", "//x", "?x", "#x", "#", "?", ":x", "x:y", "./x", "../x", ".", "..", "x/../y", "/..", ";x", "é", "x#y?z", "//", "/"]:
            x = N(b + t)
            yield [Triple(x, x, x), Triple(N(b), x, Literal("v", None, x)), Triple(N(b[:-1]), x, N(b))], c.rng.choice([{}, {"b": b}, {"": "http://a/"}]), b


def big(c):
    """Long lists and many statements about one subject."""
    r = c.rng
    for n in c.pick([1, 40, 120, 400], [1, 40, 300, 900, 2500]):
        cells = [BlankNode() for _ in range(n)]
        ts = [Triple(N("urn:s"), N("urn:p"), cells[0])]
        for i, x in enumerate(cells):
            ts += [Triple(x, N(RDF + "first"), Literal(str(i))), Triple(x, N(RDF + "rest"), cells[i + 1] if i + 1 < n else N(RDF + "nil"))]
        yield ts, None, None
        yield ts[1:], None, None
        yield [Triple(BlankNode(), N("urn:p"), Literal(str(i))) for i in range(n)], None, None
        for k in c.pick([n], [n, 3 * n]):     # a list in a list, and so on
            cells, end = [BlankNode() for _ in range(k)], [Literal("v"), N(RDF + "nil"), BlankNode(), N("urn:s")]
            ts = [Triple(x, N(RDF + "first"), cells[i + 1] if i + 1 < k else r.choice(end)) for i, x in enumerate(cells)] + [Triple(x, N(RDF + "rest"), N(RDF + "nil")) for x in cells]
            yield ts + [Triple(N("urn:s"), N("urn:p"), cells[0])], None, None
            yield ts, None, None
            yield ts + [Triple(r.choice(cells), N("urn:p"), cells[0])], None, None
        yield [Triple(a, N("urn:p"), b) for a, b in zip(cells, cells[1:] + cells[:1])], None, None


def run(c):
    cases = small_graphs(c) + list(sweep(c)) + list(big(c)) + [random_case(c.rng) for _ in range(c.pick(2500, 40000))]
    c.cov["cases"] = len(cases)
    k = 3000
    for i in range(0, len(cases), k):
        round_trips(c, cases[i:i + k])
        if c.enough(): return


if __name__ == "__main__":
    vf.main("C12", run)
