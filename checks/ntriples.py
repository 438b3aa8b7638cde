"""C04/C05/C06: the N-Triples and N-Quads serializers and parsers against spec/NTriples.tla."""
import io, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from rdfio import *
from pymantic.parsers.lark import nquads_parser, ntriples_parser
from pymantic.primitives import BlankNode, Dataset, Graph, Literal, NamedNode, Quad, RDFEnvironment, Triple
from pymantic.serializers import serialize_nquads, serialize_ntriples

XSD = "http://www.w3.org/2001/XMLSchema#"
PIECES = ["<a:s>", "_:a", "_:b.", '"v"', '"v"@en', "@en", "^^", "<a:d>", ".", " ", "\n", "\r", "#c\n", "\t", "#<a:s>", "x"]
BOUNDS = sorted({b + d for lo, hi in [(48, 57), (65, 90), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
         (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD),
         (0x10000, 0xEFFFF), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040), (0, 0), (8, 13), (0x20, 0x2F), (0x3A, 0x40), (0x5B, 0x60),
         (0x7B, 0x7F), (0x80, 0x9F), (0xE000, 0xE000), (0x10FFFF, 0x10FFFF)] for b in (lo, hi) for d in (-1, 0, 1)
         if 0 <= b + d <= 0x10FFFF and not 0xD800 <= b + d <= 0xDFFF} | set(range(0, 160)))


def scenarios(c):
    """(q, pre, alphabet, n, suf)"""
    n3, n4 = c.pick((2, 3), (3, 4))
    out = []
    for q in (False, True):
        g = " <a:g>" if q else ""
        out.append((q, "", PIECES, n4, ""))
        for pre in ("<a:s> <a:p> ", '<a:s><a:p>"v"', "<a:s> <a:p> _:a", "<a:s> <a:p> <a:o> ", "_:a <a:p> _:a" + g + " .",
                    "#c\n<a:s> <a:p> <a:o>%s.\n\n" % g, "<a:s> <a:p> <a:o> <a:g>", "<a:s> <a:p> <a:o> _:g ."):
            out.append((q, pre, PIECES, n3 if pre.endswith(".") else n4, ""))
            out.append((q, pre, PIECES, n3, " ." + "\n_:a <a:q> _:a" + g + "."))
    q = False
    body = "<a:s> <a:p> "
    iri = list("aé>\\u00Uf41 {<\"#\n%:") + ["\\u0041", "\\U0001F600"]
    out.append((q, body + "<a:", iri, n4, "> ."))
    strs = list("a\"\\tbnrfuU04'x\n\r#\u0085\u2028é\U0001F600") + ["\\u0041", "\\U00000041", "\\\\"]
    out.append((q, body + '"', strs, n4 if c.thorough() else 3, '" .'))
    out.append((q, body + '"', strs, 2, '"@en .'))
    out.append((q, body + '"v"@', list("aZ0-_.@ \n") + ["en", "9a"], n4, " ."))
    out.append((q, body + "_:", list("aZ_:0.-· ·é\u0300\u037e") + ["_:", "#"], n4, " ."))
    out.append((q, body + "_:a", list("a.-:0 \n#<") + ["..", "_:"], n4, ""))
    out.append((q, body + '"v"^', list("^ <@a\n") + ["<a:d>", "<a:\\u0041>"], n4, " ."))
    out.append((q, body + '"\\u', list("0fFgG9\" "), 4, '0" .'))
    out.append((q, body + '"\\U000', list("01F\""), 5, '" .'))
    # long runs of one thing
    for pre, x, suf in [('"v"@en', "-a1", " ."), ('"v"@', "e", " ."), ('"v"@e-', "1", " ."), ("_:a", ".b", " ."), ("_:a", "..", "b ."), ("_:", ":", " ."), ("_:", "0", "."), ("<a:", "\\u0041", "> ."),
                        ("<a:", "\\U00000041", "> ."), ('"', "\\n", '" .'), ('"', "\\\\", '" .'), ("<a:o> .", "\n", body + "<a:o> ."), ("<a:o> .", "\r", body + "<a:o> ."), ("<a:o> .", "\r\n", body + "<a:o> ."),
                        ("<a:o> .", "#\n", ""), ("<a:o> .", " ", "\n" + body + "<a:o>."), ("<a:o>", "\t", "."), ("<a:", "%", "> .")]:
        out.append((q, body + pre, [x], 18 if c.thorough() else 9, suf))
    for suf in ("x .", " .", "> .", '" .', ".x"):
        for pre in ("_:", "_:x", "<a:", '"', '"v"@e', "_:x.", "_:x\u00b7", '"\\', '"v"@e-'):
            out.append((q, body + pre, [chr(b) for b in BOUNDS], 1, suf))
    return [{"q": q, "pre": codes(p), "alpha": [codes(x) for x in a], "n": n, "suf": codes(s)} for q, p, a, n, s in out]


def modes(q):
    p = nquads_parser if q else ntriples_parser
    return [("text", lambda d: p.parse(d)), ("string", lambda d: p.parse_string(d)),
            ("bytes", lambda d: p.parse_string(d.encode("utf-8"))),
            ("stream", lambda d: p.parse(io.StringIO(d))), ("binary stream", lambda d: p.parse(io.BytesIO(d.encode("utf-8"))))]


MODES = {False: modes(False), True: modes(True)}


def judge(c, q, text, m, which=None):
    """Run the real parser on a document and compare with the specification's meaning."""
    if m["amb"]:
        c.add("documents_left_open")
        return
    want = from_spec_all(m["out"], q) if m["ok"] else None
    for i, (name, f) in enumerate(MODES[q]):
        if which is not None and i not in which:
            continue
        g, ex = vf.outcome(f, text)
        fmt = "N-Quads" if q else "N-Triples"
        if ex is not None:
            if m["ok"]:
                c.violation("%s document of the grammar rejected (%s)" % (fmt, name), {"text": text, "error": ex, "want": want})
                return
        else:
            got = proj_all(g)
            if not m["ok"]:
                c.violation("text outside the %s grammar accepted (%s)" % (fmt, name), {"text": text, "got": got})
                return
            if iso(want, got) is None:
                c.violation("%s document read differently (%s)" % (fmt, name), {"text": text, "want": want, "got": got})
                return
    c.add("accepted" if m["ok"] else "rejected")


def spec_documents(c):
    sc = scenarios(c)
    d = vf.tempfile.mkdtemp(prefix="vf_sc_")
    try:
        path = os.path.join(d, "sc.ndjson")
        with open(path, "w") as f:
            for x in sc:
                f.write(vf.json.dumps(x) + "\n")
        res, recs = vf.explore("MCNTriples", env={"TRACE": path})
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.model(res)
    seen = {}
    for r in recs:
        seen[(r["q"], "".join(map(chr, r["text"])))] = r["m"]
    items = sorted(seen.items(), key=lambda kv: kv[0])
    c.cov["spec_documents"] = len(items)

    def replay(c, part):
        for (q, text), m in part:
            k = c.rng.randrange(5)
            judge(c, q, text, m, None if m["ok"] and c.rng.random() < .2 else (0, k) )
            c.add("traces_validated_against_impl")
            if c.enough():
                return
        (q, text), m = part[-1]
        c.sample({"text": text, "nquads": q, "accepted": m["ok"]})
    c.parallel(replay, [items[i::16] for i in range(16)])


def rnd_iri(r):
    def ch():
        x = r.random()
        if x < .75: return r.choice("abcxyz019-._~/#?=&%:")
        if x < .85: return r.choice("éß漢\U0001F600\u00a0")
        return "\\u%04X" % r.choice([0x41, 0x61, 0xe9, 0x6f22]) if r.random() < .6 else "\\U%08x" % r.choice([0x41, 0x1F600])
    return "<" + r.choice(["http://ex.org/", "urn:x:", "a:", "tag:b"]) + "".join(ch() for _ in range(r.randrange(4))) + ">"


def rnd_str(r):
    def ch():
        x = r.random()
        if x < .6: return r.choice("ab '#.<>@^:é漢\t\u0085\u2028\x00\x7f\U0001F600")
        return r.choice(["\\t", "\\b", "\\n", "\\r", "\\f", '\\"', "\\'", "\\\\", "\\u0022", "\\u000A", "\\U0001F600", "\\u005C"])
    return '"' + "".join(ch() for _ in range(r.randrange(6))) + '"'


def large_docs(r, q):
    """Documents of many lines and of long lines and labels."""
    g = lambda i: (" <urn:g%d>" % (i % 7), " _:g%d" % i, "")[i % 3] if q else ""
    for n in (90, 400, 1500):
        yield "".join('_:b%d <urn:p> "%d"%s .\n' % (i, i, g(i)) for i in range(n))
        yield "".join("_:b%d<urn:p>_:b%d%s.\r\n" % (i, (i * 7) % n, g(i)) for i in range(n))
        yield "".join('<urn:s> <urn:p> "%d"%s .%s' % (i, g(i), r.choice(["\n", "\n\n", " # c\n", "\r", " \n"])) for i in range(n)) + r.choice(["", "<urn:s> <urn:p>", ".", "_:x <urn:p> _:x ."])
    for n in (100, 4090, 8190, 9000, 17000):
        l = "n" * n
        yield '_:%s <urn:p> "%s"@en-%s . # %s\n_:%sm <urn:%s> _:%s .\n' % (l, l + "\\u0041" + l, l, l, l, l + "\\u0042", l)
        yield "\n" * n + "<urn:s> <urn:p> <urn:o>" + " " * n + "." + "\t" * n + "\n" * n + "#" * n
        yield '<urn:s> <urn:p> "%s .' % l


def rnd_doc(r, q):
    labels = ["_:" + x for x in r.sample(["a", "b", "a.b", "0", "A", "é", "a-", "_", ":", "a:b", "x·", "b0"], 3)]
    irs = [rnd_iri(r) for _ in range(3)]
    def lit():
        s = rnd_str(r)
        x = r.random()
        if x < .3: return s + r.choice(["@en", "@EN", "@de-AT", "@a-0-b9"])
        if x < .5: return s + "^^" + rnd_iri(r)
        return s
    ws = lambda: r.choice(["", " ", "  ", "\t", " \t "])
    sep = lambda a: " " if a.startswith("_:") else ws()
    lines = []
    for _ in range(r.randrange(5)):
        if r.random() < .2:
            lines.append(ws() + r.choice(["", "# comment . <a:b>", "#"]))
            continue
        s = r.choice(irs + labels)
        p = r.choice(irs)
        o = r.choice(irs + labels + [lit(), lit(), lit()])
        g = r.choice(irs + labels + [""]) if q else ""
        line = ws() + s + sep(s) + p + ws() + o
        if g:
            line += " " + g
        line += (ws() if r.random() < .8 else "") + "." + ws()
        if r.random() < .2: line += "#" + r.choice(["", " c", '"\\', "<"])
        lines.append(line)
    eol = r.choice(["\n", "\r\n", "\r", "\n\n", "\n\r"])
    return eol.join(lines) + r.choice(["", eol])


def mutate(r, d):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(d) + 1)
        x = r.random()
        ins = r.choice(list(" \t\n\r.<>\"@^_:\\#abu0é%{}") + ["^^", "<a:x>", "_:b", " . ", "\\u00"])
        if x < .35: d = d[:i] + ins + d[i:]
        elif x < .65 and i < len(d): d = d[:i] + d[i + 1:]
        elif x < .85 and i < len(d): d = d[:i] + ins + d[i + 1:]
        else:
            j = r.randrange(len(d) + 1)
            d = d[:min(i, j)] + d[max(i, j):] if abs(i - j) < 12 else d
    return d


def random_documents(c, n):
    docs = [{"f": "parse", "q": q, "text": codes(d)} for q in (False, True) for d in large_docs(c.rng, q)]
    for i in range(n):
        q = c.rng.random() < .5
        d = rnd_doc(c.rng, q)
        if i % 2:
            d = mutate(c.rng, d)
        docs.append({"f": "parse", "q": q, "text": codes(d)})
    res, ans = vf.evaluate("EvalNTriples", docs)
    c.model(res)

    def run(c, k):
        for d, m in list(zip(docs, ans))[k::8]:
            judge(c, d["q"], "".join(map(chr, d["text"])), m)
            c.add("traces_validated_against_impl")
            if c.enough():
                return
        c.sample({"text": "".join(map(chr, d["text"])), "nquads": d["q"], "accepted": m["ok"]})
    c.parallel(run, range(8))


# ---- C04, C05 -----------------------------------------------------------------------------------

CHARS = list("\x00\x01\x08\t\n\x0b\x0c\r\x1f !\"#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~\x7f\x80\x85\xa0é\u0100\u07ff\u0800\u2028\u2029\ufeff"
             "\ud7ff\ue000\ufffd\ufffe\uffff\U00010000\U0001F600\U000fffff\U0010ffff")
TRAPS = ["", "\\", '"', '\\"', "\\n", "\\u0041", "\n", "\r\n", '" .\n<a:x> <a:y> <a:z> .', "@en", '"@en', "^^<a:b>", "a\\", "%", "%4", "%41",
         "# c", "\\\\u0041", "_:b", "\x00", "\\U0001F600"]


class Pool:
    def __init__(self, r):
        self.r = r
        self.bs = [BlankNode() for _ in range(4)]

    def text(self):
        r = self.r
        if r.random() < .35: return r.choice(TRAPS)
        return "".join(r.choice(CHARS) for _ in range(r.randrange(7)))

    def iri(self):
        r = self.r
        x = r.random()
        base = r.choice(["http://ex.org/", "urn:a:", "http://ex.org/a#", "mailto:a@b"])
        if x < .5: return NamedNode(base + r.choice(["", "a", "b", "%20", "%C3%A9", "a?b=c&d", "x[1]", "~", "a'b", "(c)", "*"]))
        return NamedNode(base + "".join(r.choice(CHARS) for _ in range(r.randrange(4))))

    def lit(self):
        r = self.r
        x = r.random()
        v = self.text()
        if x < .3: return Literal(v, r.choice(["en", "en-us", "de-at", "x-0", "EN", "de-AT", "en-x-us", "zh-hant-cn-x-private1", "a-0-b9"]))
        if x < .6: return Literal(v, None, r.choice([NamedNode(XSD + "integer"), NamedNode(XSD + "string"), self.iri()]))
        return Literal(v)

    def obj(self):
        return self.r.choice([self.iri, self.lit, self.lit, lambda: self.r.choice(self.bs)])()

    def subj(self):
        return self.r.choice([self.iri, lambda: self.r.choice(self.bs)])()


def sweep(c):
    """Graphs that between them hold every character (thorough) or every boundary and a sample (quick)."""
    if c.thorough():
        pts = [x for x in range(0x110000) if not 0xD800 <= x <= 0xDFFF]
    else:
        pts = sorted(set(BOUNDS) | set(range(0x3000)) | {c.rng.randrange(0xE000, 0x110000) for _ in range(2000)} | {c.rng.randrange(0x3000, 0xD800) for _ in range(500)})
    for i in range(0, len(pts), 200):
        block = pts[i:i + 200]
        ts = [Triple(NamedNode("urn:s"), NamedNode("urn:p"), Literal("".join(map(chr, block[j:j + 20])))) for j in range(0, len(block), 20)]
        ts += [Triple(NamedNode("urn:" + "".join(map(chr, block[j:j + 20]))), NamedNode("urn:p"), NamedNode("urn:o")) for j in range(0, len(block), 20)]
        if i < 60000 or i % 2000 == 0:
            yield ts


def random_graphs(c, n, q):
    r = c.rng
    for i in range(n):
        p = Pool(r)
        ts = []
        common = [(p.subj(), p.iri(), p.obj()) for _ in range(3)]
        names = [None, NamedNode("urn:g1"), NamedNode("http://ex.org/é"), BlankNode(), p.bs[0]]
        for _ in range(r.randrange(9)):
            t = r.choice(common) if r.random() < .3 else (p.subj(), p.iri(), p.obj())
            ts.append(Quad(*t, r.choice(names)) if q else Triple(*t))
        yield ts


def large_graphs(c, q):
    """Many nodes, many statements about one, many names, long texts."""
    r = c.rng
    N = NamedNode
    p, o = N("urn:p"), N("urn:o")
    for n in c.pick([70, 300, 1100], [70, 300, 1100, 5000]):
        bs = [BlankNode() for _ in range(n)]
        names = [None] + [N("urn:g%d" % i) for i in range(n // 9)] + [BlankNode() for _ in range(n // 20)]
        sets = [[(b, p, Literal(str(i))) for i, b in enumerate(bs)],
                [(a, p, b) for a, b in zip(bs, bs[1:])],
                [(N("urn:s"), p, x) for x in bs[:50]] + [(N("urn:s"), p, Literal("x" * i)) for i in range(0, n, 7)] + [(N("urn:s"), p, N("urn:" + "y" * i)) for i in range(0, n, 7)],
                [(r.choice(bs), N("urn:p%d" % r.randrange(20)), r.choice(bs + [Literal("v", "en")])) for _ in range(n)] + [(b, o, Literal(str(i))) for i, b in enumerate(bs)]]
        for ts in sets:
            yield [Quad(*t, r.choice(names)) if q else Triple(*t) for t in ts]
        if q:
            yield [Quad(N("urn:s"), p, o, g) for g in names]
            yield [Quad(bs[i], p, Literal(str(i)), g) for i, g in enumerate(names)]
    for n in c.pick([255, 4095, 8191, 20000], [255, 4095, 8191, 8192, 65535, 65536, 70000]):
        x = r.choice(["a", "é", '"', "\\", "\n", "😀"])
        ts = [(N("urn:s"), p, Literal("b" * n + x)), (N("urn:s"), p, Literal(x * n, "en")), (N("urn:s" + "z" * n), p, o), (N("urn:s"), p, Literal("v", None, N("urn:" + "d" * n)))]
        yield [Quad(*t, N("urn:g" + "h" * n)) if q else Triple(*t) for t in ts]


def built(r, ts, q, write):
    """The graph or dataset, made in one of several ways, at times written in between; and what it holds."""
    if q and r.random() < .4:
        ds, ts = Dataset(), list(ts)
        for name in {id(t.graph): t.graph for t in ts}.values():
            mine = [t for t in ts if t.graph is name]
            if name is None or any(t.graph == name for t in ts if t.graph is not name) or r.random() < .2:
                for t in mine: ds.add(t)
                continue
            how = r.randrange(3) if isinstance(name, NamedNode) else 1
            g = Graph([name, None, NamedNode("urn:former")][how])
            half = r.randrange(len(mine) + 1)
            for t in mine[:half]: g.add(Triple(*t[:3]))
            ds.add_graph(g, None if how == 0 else str(name) if isinstance(name, NamedNode) and r.random() < .3 else name)
            if r.random() < .3:       # the same graph under a second name
                other = r.choice([NamedNode("urn:second%d" % len(ts)), BlankNode()])
                ds.add_graph(g, other)
                ts += [Quad(*t[:3], other) for t in mine]
            for t in mine[half:]: r.choice([lambda t: g.add(Triple(*t[:3])), ds.add])(t)
            if r.random() < .2: vf.outcome(write, ds, io.StringIO())
        return ds, ts
    g = Dataset() if q else Graph()
    for t in ts:
        g.add(t)
        if r.random() < .02: vf.outcome(write, g, io.StringIO())
    return g, ts


def round_trip(c, q):
    write = serialize_nquads if q else serialize_ntriples
    graphs = list(random_graphs(c, c.pick(1500, 12000), q))
    if q:
        graphs += [[Quad(*t, [None, NamedNode("urn:g")][k % 2]) for k, t in enumerate(ts)] for ts in sweep(c)]
    else:
        graphs += list(sweep(c))
    graphs += list(large_graphs(c, q))
    recs, objs = [], []
    for ts in graphs:
        g, ts = built(c.rng, ts, q, write)
        f = io.StringIO()
        _, ex = vf.outcome(write, g, f)
        ids = Ids()
        mine = list({tuple(proj(x, ids) for x in t) for t in ts})
        if ex is not None:
            c.violation("serializer raised", {"error": ex, "graph": mine})
            if c.enough(): return
            continue
        text = f.getvalue()
        p = nquads_parser if q else ntriples_parser
        back, ex = vf.outcome(p.parse, text)
        recs.append({"f": "doc", "q": q, "text": codes(text), "graph": [[to_spec(x) for x in t if x[0] != "d"] for t in mine]})
        objs.append((mine, text, ex, None if ex else proj_all(back)))
    res, ans = vf.evaluate("EvalNTriples", recs, timeout=3000)
    c.model(res)
    fmt = "N-Quads" if q else "N-Triples"
    for (mine, text, ex, back), a in zip(objs, ans):
        c.add("traces_validated_against_impl")
        c.add("statements_written", len(mine))
        want = from_spec_all(a["want"], q)
        out = from_spec_all(a["out"], q)
        d = {"graph": mine, "text": text}
        if not a["ok"]:
            c.violation("%s output is not of the grammar" % fmt, d)
        elif a["amb"]:
            c.violation("%s output has relative or illegal IRIs" % fmt, d)
        elif len(out) != len(mine):
            c.violation("%s output has %d statements for %d" % (fmt, len(out), len(mine)), d)
        elif iso(want, out) is None:
            c.violation("%s output denotes another graph" % fmt, dict(d, read=out, want=want))
        elif ex is not None:
            c.violation("%s output is rejected by the parser" % fmt, dict(d, error=ex))
        elif len(back) != len(set(want)) or iso(want, back) is None:
            c.violation("%s output is read back as another graph" % fmt, dict(d, want=want, read=back))
        if c.enough(): return
    c.sample({"text": objs[0][1], "statements": len(objs[0][0])})
    res = vf.tlc_ok(vf.tlc("MCNTWrite", c.pick("MCNTWrite", "MCNTWriteDeep")), "MCNTWrite")
    c.model(res)


def run(c, prop):
    if prop == "C06":
        spec_documents(c)
        if not c.enough():
            random_documents(c, c.pick(3000, 40000))
    else:
        round_trip(c, prop == "C05")


if __name__ == "__main__":
    prop = sys.argv[1]
    vf.main(prop, lambda c: run(c, prop))
