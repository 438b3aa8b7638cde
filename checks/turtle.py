"""C09, C10, C11: Turtle documents against spec/Turtle.tla (structure), TurtleLex.tla (terminals), RFC3986.tla (references)."""
import io, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from rdfio import *
from pymantic.parsers import turtle_parser
from pymantic.primitives import Graph

XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
E = "http://e.example/"
LITS = {"plain": (['"x"', "'x'", '"""x"""', "'''x'''"], ("l", "x", "", "")),
        "lang": (['"x"@en', "'x'@en"], ("l", "x", "en", "")),
        "int": (["5"], ("l", "5", "", XSD + "integer")),
        "dec": (["-1.50"], ("l", "-1.50", "", XSD + "decimal")),
        "dbl": (["1e0"], ("l", "1e0", "", XSD + "double")),
        "bool": (["true"], ("l", "true", "", XSD + "boolean")),
        "typed": (['"x"^^<%st>' % E], ("l", "x", "", E + "t"))}


def T(k, v="", w=""):
    return {"k": k, "v": v, "w": w}


def I(x): return T("iri", E + x)
def B(x): return T("bn", x)
def LT(x): return T("lit", x)
def P(p, x): return T("pn", p, x)
def N(p): return T("ns", p)
def R(x): return T("rel", x)
def D(x): return T("dlit", "d", x)
def J(s): return [T(x) for x in s.split()]


def text_of(t, r):
    k = t["k"]
    if k == "iri": return "<%s>" % t["v"]
    if k == "rel": return "<%s>" % t["v"]
    if k == "badiri": return r.choice(["<http://e.example/\\u0020>", "<http://e.example/{>", "<http://e.example/\\u003E>", "<http://e.example/a b>",
                                       "<http://e.example/\\U0000007c>", "<a\\u000Ab>"])
    if k == "pn": return t["v"] + ":" + t["w"]
    if k == "ns": return t["v"] + ":"
    if k == "bn": return "_:" + t["v"]
    if k == "lit": return r.choice(LITS[t["v"]][0])
    if k == "dlit": return '"d"^^' + text_of(t["w"], r)
    if k == "junk": return r.choice(["}", "|", "@", "\"open", "~", "$x", "^^", "<", "`"])
    if k == "PREFIX": return r.choice(["PREFIX", "prefix", "Prefix"])
    if k == "BASE": return r.choice(["BASE", "base", "Base"])
    return k


def render(doc, r):
    """Text of a token sequence, in a random layout that separates the tokens."""
    out = []
    style = r.randrange(3)
    for i, t in enumerate(doc):
        s = text_of(t, r)
        out.append(s)
        if i + 1 == len(doc):
            break
        nxt = doc[i + 1]["k"]
        loose = t["k"] in ("(", ")", ";", ",", "]", "[", "iri", "rel") or nxt in ("(", ")", ";", ",", "[", "]")
        if t["k"] == "[" and nxt == "]":
            out.append(r.choice(["", " ", "\n", "\t "]))
        elif style == 0:
            out.append(" ")
        elif style == 1 and loose and t["k"] not in ("junk",) and nxt not in ("junk",):
            out.append("")
        else:
            out.append(r.choice([" ", "\n", "\t", "\r\n", " #c .\n", "  ", "# ]\r"]) if not t["k"] == "junk" else " ")
    return "".join(out)


def term(x):
    if x[0] == "l":
        return LITS[x[1]][1] if x[1] != "d" else ("l", "d", "", x[2][1])
    if x[0] == "r":
        return ("i", RDF + x[1])
    if x[0] == "n":
        return ("b", x[1])
    return tuple(x)


def norm(t):
    return t[:3] + ("",) if t[0] == "l" and t[3] == XSD + "string" else t


LABELS = ["a", "A", "b", "B", "a.b", "a.B", "ab", "0", "00", "1", "01", "é", "É", "e\u0301", "_", "a-", "a_", "b0", "b1", "n", "genid1", "a1", "a01", "a..b", "a·", "x" * 70, "x" * 69 + "y"]
PREFIXES = ["p", "q", "P", "Q", "pq", "p.q", "p-q", "p1", "p01", "é", "É", "a", "A", "b", "true", "prefix", "base", "e", "E1", "rdfs", "owl", "xs"]


def renamed(doc, r):
    """The same document with other labels and prefix names, many of them nearly alike."""
    labels = {t["v"] for t in doc if t["k"] == "bn"}
    prefixes = {x["v"] for t in doc for x in (t, t["w"]) if isinstance(x, dict) and x["k"] in ("pn", "ns")} - {"", "rdf", "xsd"}
    m = dict(zip(sorted(labels), r.sample(LABELS, len(labels))))
    n = dict(zip(sorted(prefixes), r.sample(PREFIXES, len(prefixes))))
    n[""] = ""
    def one(t):
        if not isinstance(t, dict): return t
        if t["k"] == "bn": return dict(t, v=m[t["v"]])
        if t["k"] in ("pn", "ns"): return dict(t, v=n.get(t["v"], t["v"]))
        return dict(t, w=one(t["w"]))
    return [one(t) for t in doc]


def judge(c, doc, m, base=""):
    if c.rng.random() < .7: doc = renamed(doc, c.rng)
    text = render(doc, c.rng)
    kw = {"base": base} if base else {}
    how = c.rng.randrange(5)
    src = text if how < 2 else text.encode() if how == 2 else io.StringIO(text) if how == 3 else io.BytesIO(text.encode())
    f = turtle_parser.parse_string if how in (1, 2) else turtle_parser.parse
    g, ex = vf.outcome(f, src, **kw)
    info = {"text": text, "base": base}
    c.add("traces_validated_against_impl")
    if ex is not None:
        c.add("rejected")
        if m["ok"]:
            c.violation("Turtle document rejected", dict(info, error=ex))
        return
    got = [tuple(norm(t) for t in st) for st in proj_all(g)]
    if not m["ok"]:
        c.violation("text outside Turtle accepted", dict(info, got=got))
        return
    c.add("accepted")
    want = {tuple(term(x) for x in st) for st in m["out"]}
    if len(want) != len(got) or iso(want, got) is None:
        c.violation("Turtle document read as another graph", dict(info, want=sorted(want, key=repr), got=got))


def scenarios(c):
    k = c.pick(0, 1)
    full = [I("x"), B("a"), LT("plain"), T("a")] + J("[ ] ( ) ; , .")
    small = [I("x"), B("a")] + J("[ ] ( ) ; , .")
    nest = [LT("int")] + J("[ ] ( )") + [I("p")]
    dirs = J("@prefix PREFIX @base BASE .") + [N("p"), N(""), I("d/"), R("r/"), P("p", "x")]
    pre = J("@prefix") + [N("p"), I("p1/")] + J(".")
    out = []
    def sc(pre, alpha, n, suf=(), depth=5, base=""):
        out.append({"pre": list(pre), "alpha": list(alpha), "n": n, "suf": list(suf), "depth": depth, "base": base})
    sc([], full, 5 + k)
    sc([I("s"), I("p")], small, 5 + k, J("."))
    sc([I("s"), I("p")], small, 4 + k, [])
    sc([I("s"), I("p")] + J("("), nest, 6 + k, J(") ."), 5)
    sc([I("s"), I("p")] + J("["), nest + J("; ,"), 5 + k, J("] ."), 5)
    sc(J("["), small, 5 + k, J("."))
    sc(J("["), nest + J(";"), 6 + k, J("."))
    sc(J("("), nest, 5 + k, [I("p"), B("a")] + J("."))
    sc(J("(") + [B("a")] + J(")"), small, 4 + k, J("."))
    sc([I("s"), T("a")], [I("x"), T("a"), B("a"), LT("bool")] + J("; , . ["), 4 + k, J("."))
    sc([], dirs, 5 + k, base=E)
    sc(pre, dirs, 4 + k, [N("p"), P("p", "x"), R("o")] + J("."), base=E)
    sc(pre + [P("p", "s"), P("p", "p"), P("p", "o")], dirs + J(";"), 5, [N("p"), N("p"), P("p", "x")] + J("."), base=E)
    sc([I("s"), I("p")], [T("badiri"), T("junk"), P("q", "x"), N("q"), D(P("q", "t")), D(P("p", "t")), I("x")] + J(". ,"), 4, J("."))
    sc(pre + [I("s"), I("p")], [T("badiri"), P("q", "x"), N("p"), D(P("q", "t")), D(P("p", "t")), P("p", "x")] + J("( ) ,"), 4, J("."))
    return out


def exhaustive(c):
    scs = scenarios(c)
    d = vf.tempfile.mkdtemp(prefix="vf_sc_")
    try:
        path = os.path.join(d, "sc.ndjson")
        with open(path, "w") as f:
            for x in scs: f.write(json.dumps(x) + "\n")
        res, recs = vf.explore("MCTurtle", env={"TRACE": path}, timeout=3000)
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.model(res)
    c.cov["spec_documents"] = len(recs)

    def replay(c, i):
        for r in recs[i::16]:
            judge(c, r["doc"], r["m"], scs[r["sc"] - 1]["base"])
            if c.enough(): return
        c.sample({"text": render(r["doc"], c.rng), "accepted": r["m"]["ok"]})
    c.parallel(replay, range(16))


class Gen:
    """Random documents of the grammar, as tokens."""

    def __init__(self, r):
        self.r = r
        self.pre = []
        self.left = 60

    def iri(self):
        r = self.r
        x = r.random()
        if self.pre and x < .4:
            p = r.choice(self.pre)
            return N(p) if r.random() < .15 else P(p, r.choice(["x", "y", "z", "X", "x1", "x.y", "x-", "0"]))
        if x < .55: return R(r.choice(["x", "y"]))
        return I(r.choice(["x", "y", "z", "X", "x/", "x#", "x%2F", "x%2f", "x?", "é", "e\u0301"]))

    def obj(self, d):
        r = self.r
        self.left -= 1
        x = r.random()
        if d < 6 and self.left > 0 and x < .18: return self.bpl(d + 1)
        if d < 6 and self.left > 0 and x < .36: return self.coll(d + 1)
        if x < .42: return J("[ ]")
        if x < .6: return [B(r.choice(["a", "b", "c", "d"]))]
        if x < .75: return [self.iri()]
        if self.pre and x < .8: return [D(self.iri())]
        return [LT(r.choice(list(LITS)))]

    def coll(self, d):
        out = J("(")
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 3])):
            out += self.obj(d)
        return out + J(")")

    def bpl(self, d):
        return J("[") + self.pol(d) + J("]")

    def pol(self, d):
        r = self.r
        out = []
        while True:
            out += [T("a")] if r.random() < .2 else [self.iri()]
            out += self.obj(d)
            while r.random() < .3:
                out += J(",") + self.obj(d)
            if r.random() < .6 or self.left < 0:
                break
            out += J(";") * r.choice([1, 1, 2])
        return out + J(";") * r.choice([0, 0, 0, 1, 2])

    def statement(self):
        r = self.r
        x = r.random()
        if x < .25:
            p = r.choice(["p", "", "q", "p.q", "é"])
            out = [N(p), r.choice([I("n1/"), I("n2#"), R("r/"), R("")])]
            if p not in self.pre: self.pre.append(p)
            return J("@prefix") + out + J(".") if r.random() < .5 else J("PREFIX") + out
        if x < .35:
            out = [r.choice([I("b1/"), R("sub/"), R("")])]
            return J("@base") + out + J(".") if r.random() < .5 else J("BASE") + out
        if x < .5:
            out = self.bpl(1)
            return out + (self.pol(0) if r.random() < .5 else []) + J(".")
        s = r.choice([lambda: [self.iri()], lambda: [B("a")], lambda: J("[ ]"), lambda: self.coll(1)])()
        return s + self.pol(0) + J(".")

    def doc(self):
        out = []
        for _ in range(self.r.choice([1, 2, 3, 4, 6])):
            out += self.statement()
        return out


def mutate(r, doc):
    doc = list(doc)
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(doc) + 1)
        new = r.choice([T("badiri"), T("junk"), P("nope", "x"), N("nope"), T("a"), LT("plain"), I("x"), B("a")] + J("[ ] ( ) ; , . @prefix BASE") * 2)
        x = r.random()
        if x < .35: doc.insert(i, new)
        elif i < len(doc) and x < .7: del doc[i]
        elif i < len(doc) and x < .85: doc[i] = new
        elif i + 1 < len(doc): doc[i], doc[i + 1] = doc[i + 1], doc[i]
    return doc


def random_documents(c, n):
    docs = []
    for i in range(n):
        d = Gen(c.rng).doc()
        if i % 3 == 0: d = mutate(c.rng, d)
        # in these documents references are appended to the base, so it has to end in a slash
        if any(a["k"] in ("@base", "BASE") and b["k"] in ("iri", "rel") and b["v"] and not b["v"].endswith("/") for a, b in zip(d, d[1:])): continue
        # a keyword behind a string reads as its language tag
        if any(a["k"] == "lit" and b["k"] in ("@prefix", "@base") for a, b in zip(d, d[1:])): continue
        docs.append({"base": E, "doc": d})
    res, ans = vf.evaluate("EvalTurtle", docs, timeout=3000)
    c.model(res)
    ok = [len(a["out"]) for a in ans if a["ok"]]
    c.cov["largest_document_triples"] = max(ok)

    def run(c, k):
        for d, m in list(zip(docs, ans))[k::8]:
            judge(c, d["doc"], m, d["base"])
            if c.enough(): return
        c.sample({"text": render(d["doc"], c.rng)[:300], "accepted": m["ok"]})
    c.parallel(run, range(8))


# ---- documents as text: C10, C11 ----------------------------------------------------------------

def text_term(x):
    k = x[0]
    if k == "r": return ("i", RDF + x[1])
    if k == "n": return ("b", x[1])
    v = "".join(map(chr, x[1]))
    if k != "l": return (k, v)
    kind, w = x[2][0], "".join(map(chr, x[2][1]))
    return ("l", v, w.lower() if kind == "lang" else "", w if kind == "dt" and w != XSD + "string" else "")


def judge_text(c, text, base, m, what):
    """Read a document, in one of the ways there are, and compare with what the specification says."""
    if m["amb"]:
        c.add("documents_left_open")
        return
    c.add("traces_validated_against_impl")
    kw = {"base": base} if base else {}
    how = c.rng.randrange(6)
    src = text if how < 2 else text.encode() if how == 2 else io.StringIO(text, newline="") if how == 3 else io.BytesIO(text.encode())
    f = turtle_parser.parse_string if how in (1, 2) else turtle_parser.parse
    g, ex = vf.outcome(f, src, **kw)
    info = {"text": text, "base": base}
    if ex is not None:
        c.add("rejected")
        if m["ok"]:
            c.violation("Turtle document rejected (%s)" % what, dict(info, error=ex))
        return
    got = [tuple(norm(t) for t in st) for st in proj_all(g)]
    if not m["ok"]:
        c.violation("text outside Turtle accepted (%s)" % what, dict(info, got=got))
        return
    c.add("accepted")
    want = {tuple(text_term(x) for x in st) for st in m["out"]}
    if iso(want, got) is None:
        c.violation("Turtle document read as another graph (%s)" % what, dict(info, want=sorted(want, key=repr), got=got))


def explore_texts(c, scs, what, skip=lambda t: False):
    """Every document of the scenarios [(base, pre, alphabet, n, suf)], with its meaning, replayed."""
    d = vf.tempfile.mkdtemp(prefix="vf_sc_")
    try:
        path = os.path.join(d, "sc.ndjson")
        with open(path, "w") as f:
            for b, p, a, n, u in scs:
                f.write(json.dumps({"base": codes(b), "pre": codes(p), "alpha": [codes(x) for x in a], "n": n, "suf": codes(u)}) + "\n")
        res, recs = vf.explore("MCTurtleLex", c.pick("MCTurtleLex", "MCTurtleLexDeep"), env={"TRACE": path}, timeout=3000)
    finally:
        vf.shutil.rmtree(d, ignore_errors=True)
    c.model(res)
    c.add("spec_documents", len(recs))

    def replay(c, i):
        for r in recs[i::16]:
            t = "".join(map(chr, r["text"]))
            if skip(t): continue
            judge_text(c, t, scs[r["sc"] - 1][0], r["m"], what)
            if c.enough(): return
        c.sample({"text": t, "accepted": r["m"]["ok"]})
    c.parallel(replay, range(16))


def random_texts(c, docs, what, skip=lambda t: False):
    """docs: [(base, text)]"""
    docs = [x for x in docs if not skip(x[1])]
    res, ans = vf.evaluate("EvalTurtleDoc", [{"base": codes(b), "text": codes(t)} for b, t in docs], timeout=3000)
    c.model(res)

    def run(c, k):
        for (b, t), m in list(zip(docs, ans))[k::8]:
            judge_text(c, t, b, m, what)
            if c.enough(): return
        c.sample({"text": t[:300], "accepted": m["ok"]})
    c.parallel(run, range(8))


BOUNDS = sorted({b + d for lo, hi in [(48, 57), (65, 90), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
         (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD),
         (0x10000, 0xEFFFF), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040), (0, 0), (0xE000, 0xE000), (0x10FFFF, 0x10FFFF), (0x2028, 0x2029)]
         for b in (lo, hi) for d in (-1, 0, 1)
         if 0 <= b + d <= 0x10FFFF and not 0xD800 <= b + d <= 0xDFFF} | set(range(0, 162)))


def lex_scenarios(c):
    t = c.thorough()
    sp = "<x:s> <x:p> "
    pf = "@prefix p: <x:> . @prefix : <y:> . "
    out = []
    def sc(pre, alpha, n, suf, base=""):
        out.append((base, pre, list(alpha) if isinstance(alpha, str) else alpha, n, suf))
    esc = ["\\", "\\t", "\\b", "\\n", "\\r", "\\f", "\\\"", "\\'", "\\\\", "\\u0041", "\\U0001F600", "\\u005C", "\\u0022", "\\x"]
    strs = list("a\"'\\u4n\n\r#é\U0001F600 \u2028") + ["\\u0041", "\\\\", "\\\"", "\\'"]
    for q in ('"', "'", '"""', "\'\'\'"):
        sc(sp + q, strs, 3 if t or len(q) == 3 else 3, q + " .")
        sc(sp + q, esc, 3 if t else 2, q + "@en .")
        sc(sp + q + "a", ['"', "'", "\\", "a", "\n"], 6 if t else 5, q + " .")
        sc(sp + q, ["\\u", "\\U", "0", "00", "4", "1", "F", "g", "\\"], 4, q + ".")
    sc(sp + '"\\U', list("0123f"), 3, '00000" .')
    sc(sp + '"v"', ["@", "en", "-", "US", "a1", "1", "^^", "<x:t>", "p:t", ".", " ", "prefix", "_", "@base", "#\n"], 4 if t else 3, " .")
    sc(pf + sp + '"v"^^', ["p:t", ":t", "<x:t>", "p:", " ", "#\n", '"v"', "@en", "a", "_:b", "5", "true", "^^"], 3, " .")
    nums = list("15.eE+-0") + [" "]
    sc(sp, nums, 5 if t else 4, " .")
    sc(sp + "(", nums, 5 if t else 4, ").")
    sc(sp + "(1", list("5.eE+-,a)"), 4, ") .")
    sc(sp, ["5", "5.", ".5", "-.5e1", "5e+0", "1E-1", ".", " ", "\n", "true", "false", ",", "a", "+5.0", "#"], 4 if t else 3, "")
    sc(pf + sp, ["true", "false", "a", ":", "p", "t", " ", ".", "TRUE", "_"], 4 if t else 3, " .")
    sc(sp, ["TRUE", "True", "tRUE", "False", "FALSE", "1E0", "1e0", "\"v\"@EN", "\"v\"^^", "<x:t>", " "], 2, " .")
    sc("<x:s> ", ["A", "a", "@A", "<x:p>", " "], 2, " <x:o> .")
    sc("", ["@prefix", "@PREFIX", "@Prefix", "PREFIX", "PreFIX", "@base", "@BASE", "Base", "bASE", " p: ", " ", "<x:>", " ."], 3 if t else 2, " p: <x:> . p:s p:p p:o .")
    sc("@base", [" ", "<x:>", " .", "BASE", "@BASE", "@base"], 4, " <s> <p> <o> .")
    # long runs of one thing
    for pre, x, suf in [(sp + '"v"@en', "-a1", " ."), (sp + '"v"@', "e", " ."), (sp + '"v"@e-', "1", " ."), (sp + "_:a", ".b", " ."), (sp + "_:a", "..", "b ."), (pf + sp + "p:", "\\-", " ."),
                        (pf + sp + "p:", "%4f", " ."), (pf + sp + "p:a", ".b", " ."), (pf + sp + "p:", ":", " ."), (sp + "<x:", "\\u0041", "> ."), (sp + '"', "\\n", '" .'), (sp + '"""', '""a', '""" .'),
                        (sp + "1", "0", " ."), (sp + "1.", "0", "1 ."), (sp + "1e", "0", " ."), (sp + ".", "0", "e1 ."), (sp + "<x:o>", ";", " ."), (sp + "<x:o>", " ; ", "<x:p> 1 ."), (sp + "<x:o>", ", 1", " ."),
                        (sp + "[", " ", "] ."), (sp + "[", "\n", "] ."), (sp, "#\n", "1 ."), ("", "#\r", sp + "1 ."), ("@prefix a", ".b", ": <x:> ."), ("", "@base <x:> .", ""), ("", "PREFIX p: <x:>", sp + "p:x ."),
                        (sp + "(", "()", ") ."), (sp + "<x:", "%4", "> ."), (sp + "<x:", "\U00000041", "> ."), (sp + "+", "1", "."), (sp, "-", "1 .")]:
        sc(pre, [x], 18 if t else 9, suf)
    # local names
    loc = list("a0.:-_%é\u00b7\u0300") + ["\\-", "\\.", "%4f", "\\\\", "\\%", "\\u0041", "%G0", "~", "\\~", "/", " "]
    sc(pf + sp + "p:", loc, 4 if t else 3, " .")
    sc(pf + sp + ":", loc, 3, "p:x .")
    sc(pf + sp + "p:", ["\\" + x for x in "_~.-!$&'()*+,;=/?#@%ab\\\"<:0"], 2, " .")
    sc(pf + sp + "p:a", [".", "..", ":", "\\.", "%2E", "x", " "], 5 if t else 4, ".")
    sc(sp + "_:", list("aZ_:0.-·é\u0300") + [" ", "..", "a.b"], 4 if t else 3, " .")
    sc("@prefix ", list("aé.0-_:·") + ["ab"], 4 if t else 3, ": <x:> .")
    sc("@prefix a.b: <x:> . <x:s> <x:p> ", ["a", ".", "b", ":", "c", " "], 5 if t else 4, " .")
    # IRIs
    sc(sp + "<x:", list("aé>\\uU04 {<\"#\n%^`|}") + ["\\u0041", "\\U0001F600", "\\u0020", "\\u00e9", "\\U0000003E"], 3, "> .")
    # layout
    gap = ["", " ", "\t", "\n", "\r", "\r\n", "#c\n", "#c\r", "# <x:q> .\r\n", "\u00a0", "\x0c", "\u2028", "#\u2028\n", "#\x85 .\n", "\ufeff"]
    for pre, suf in [("<x:s>", "<x:p> <x:o> ."), ("<x:s> a", "<x:o> ."), ("<x:s> <x:p> 5", "."), ("<x:s> <x:p> 5", ", 6 ."), ("<x:s> <x:p> _:a", "."),
                     ("<x:s> <x:p> _:a", "; <x:q> _:b ."), ("<x:s> <x:p> \"v\"", "@en ."), ("<x:s> <x:p> \"v\"", "^^ <x:t> ."), ("<x:s> <x:p> (1", "2) ."),
                     ("<x:s> <x:p> [", "] ."), ("<x:s> <x:p> [<x:q>", "<x:o>] ."), ("<x:s> <x:p> <x:o> .", ""), ("", "<x:s> <x:p> <x:o> ."),
                     ("@prefix p:", "<x:> . p:s p:p p:o ."), ("@prefix", "p: <x:> . p:s p:p p:o ."), ("PREFIX p:", "<x:> p:s p:p p:o ."), ("@base <x:y>", ". <a> <b> <c> ."),
                     ("BASE <x:y>", "<a> <b> <c> ."), ("<x:s> <x:p> true", "."), ("<x:s> <x:p> ()", "."), ("<x:s> <x:p> \"v\"@en", "."), (pf + "p:s p:p p:o", "."),
                     (pf + "p:s a", "p:o ."), (pf + "p:s p:p p:", ", p:x .")]:
        sc(pre, gap, 3 if t else 2, suf)
    # every boundary character in every kind of token
    for pre, suf in [(sp + '"', '" .'), (sp + "'\'\'", "'\'\' ."), (sp + "<x:", "> ."), (sp + "_:", " ."), (sp + "_:x", "x ."), (sp + "_:x", " ."), (pf + sp + "p:", " ."),
                     (pf + sp + "p:x", "x ."), (pf + sp + "p:x", " ."), ("@prefix ", ": <x:> ."), ("@prefix x", ": <x:> ."), ("@prefix x", "y: <x:> ."),
                     (sp + '"v"@e', " ."), (sp + '"v"@e-', " ."), (sp + '"v', "\\n' ."), (sp + "5", " ."), (sp, " ."), (sp + "<x:o>", "."), ("#", "\n" + sp + "<x:o> ."),
                     (pf + sp + "p:x.", " ."), (sp + '"\\', '" .'), (pf + sp + "p:\\", " ."), (sp + "_:x.", "x ."), (pf + sp + "p:%4", " .")]:
        sc(pre, [chr(b) for b in BOUNDS], 1, suf)
    return out


class TextGen(Gen):
    """Random documents as text: the tokens of Gen, each written in one of its forms."""
    def string(self):
        r = self.r
        q = r.choice(['"', "'", '"""', "\'\'\'"])
        out = ""
        for _ in range(r.randrange(7)):
            x = r.random()
            if x < .45: ch = r.choice("ab '\"#.<>@^:é漢\t\u0085\u2028\x7f\U0001F600%{}")
            elif x < .55: ch = r.choice("\n\r") if len(q) == 3 else "n"
            elif x < .6: ch = r.choice("\"'") * r.choice([1, 2])
            else: ch = r.choice(["\\t", "\\b", "\\n", "\\r", "\\f", '\\"', "\\'", "\\\\", "\\u0022", "\\u000A", "\\U0001F600", "\\u005C", "\\u005Cn", "\\\\u0041", "\\u00E9"])
            if q[0] in ch and "\\" not in ch and (len(q) == 1 or r.random() < .3): ch = "\\" + q[0]
            out += ch
        if len(q) == 3 and out[-1:] == q[0] and r.random() < .9: out += " "
        return q + out + q

    def local(self):
        r = self.r
        first = ["a", "Z", "0", ":", "_", "é", "%41", "%c3%a9", "\\-", "\\~", "\\%", "\\."]
        return "".join(r.choice(first + ["-", ".", "·", "..", "\\,", "\\;", "\\/", "\\#"]) for _ in range(r.randrange(4))) + r.choice(first)

    def literal(self):
        r = self.r
        x = r.random()
        if x < .3: return r.choice("+- ").strip() + r.choice(["5", "0", "007", "1.5", ".5", "1.50", "1e0", "1.e5", ".5E-3", "1.0e+10", "123456789012345678901234567890"])
        if x < .36: return r.choice(["true", "false"])
        if x < .6: return self.string() + r.choice(["", "", " "]) + r.choice(["@en", "@EN-us", "@de-1996", "@a-b-c1", "@prefix", "@base-x"])
        return self.string()

    def form(self, t):
        r = self.r
        k = t["k"]
        if k in ("iri", "rel") and r.random() < .2:
            v = "".join(r.choice([x, "\\u%04x" % ord(x), "\\U%08X" % ord(x)]) if r.random() < .3 else x for x in t["v"])
            return "<%s>" % v
        if k in ("iri", "rel") and r.random() < .2: return "<%s%s>" % (t["v"], r.choice(["é", "%20", "?a=b", "#f", "\\u00e9", "a'b", "(", "~"]))
        if k == "pn" and r.random() < .5: return t["v"] + ":" + self.local()
        if k == "bn": return "_:" + r.choice(["a", "A", "b", "a.b", "a.B", "0", "00", "é", "É", "a-", "_", "a..b", "x·", "0a"])
        if k == "lit": return self.literal()
        if k == "dlit": return self.string() + r.choice(["", " "]) + "^^" + r.choice(["", "\n"]) + self.form(t["w"])
        return text_of(t, r)

    def gap(self, tight):
        return self.r.choice(["", ""] if tight else [" ", " ", "\n", "\t", "\r\n", "\r", " #c .\n", "  ", "# ]\r", "#\n"])

    def text(self):
        out = ""
        for t in self.doc():
            s = self.form(t)
            k = t["k"]
            tight = self.r.random() < .4 and (k in "()];,[" or (out[-1:] in ">([];,)\"'" and k not in (".",)) or (k == "." and out[-1:] in ">])\"'"))
            if out and out[-1:] == "[" and k == "]": out += self.r.choice(["", " ", "\n\t"])
            elif out: out += self.gap(tight)
            out += s
        return out + self.r.choice(["", "\n", " #end", "# end\n", "\r\n\r\n"])


def mutate_text(r, d):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(d) + 1)
        ins = r.choice(list(" \t\n\r.<>\"'@^_:\\#abu0é%{}[]();,5eE+-") + ["^^", "<a:x>", "_:b", " . ", "\\u00", "\"\"\"", "\'\'\'", "a ", "true", " [", "] ", "@prefix ", "BASE ", "p:"])
        x = r.random()
        if x < .35: d = d[:i] + ins + d[i:]
        elif x < .65 and i < len(d): d = d[:i] + d[i + 1:]
        elif x < .85 and i < len(d): d = d[:i] + ins + d[i + 1:]
        else:
            j = r.randrange(len(d) + 1)
            d = d[:min(i, j)] + d[max(i, j):] if abs(i - j) < 12 else d
    return d


def lexing(c):
    c.model(vf.tlc_ok(vf.tlc("MCTurtleWrite", c.pick("MCTurtleWrite", "MCTurtleWriteDeep"), timeout=3000), "MCTurtleWrite"))
    explore_texts(c, lex_scenarios(c), "lexical forms", odd_reference)
    if c.enough(): return
    docs = []
    for i in range(c.pick(2500, 30000)):
        g = TextGen(c.rng); g.left = 12
        t = g.text()
        docs.append((E, mutate_text(c.rng, t) if i % 3 == 0 else t))
    random_texts(c, docs, "lexical forms", odd_reference)


REF = re.compile(r"<([^<>\"\s]*)>")


def odd_reference(text):
    """References that are no URI references (a colon in a first segment that is no scheme), whose resolution is left open."""
    for ref in REF.findall(text):
        ref = re.sub(r"\\u([0-9A-Fa-f]{4})|\\U([0-9A-Fa-f]{8})", lambda m: chr(min(int(m.group(1) or m.group(2), 16), 0x10FFFF)), ref)
        head = re.split(r"[/?#]", ref)[0]
        if ":" in head and not re.match(r"[A-Za-z][A-Za-z0-9+.\-]*:", head): return True
    return False


# ---- C11 ----------------------------------------------------------------------------------------

BASES = ["http://a/b/c/d;p?q", "http://a", "http://a/", "http://a/b/c/", "http://a/b/c", "http://a?x/y", "http://a#x/y", "http://a/b?x/../y#z/..", "http://a/b/../c/./d",
         "urn:a:b", "mailto:x", "a:b/c/d", "file:///a/b", "http://u@h:80/p/q", "tag:x,2:y#f", "http://a/b/c/..", "http://a/b/c/.", "http://a//b//c", "http://a/b/c?", "http://a/b/c#", "http:"]
RFC54 = [("g:h", "g:h"), ("g", "http://a/b/c/g"), ("./g", "http://a/b/c/g"), ("g/", "http://a/b/c/g/"), ("/g", "http://a/g"), ("//g", "http://g"),
         ("?y", "http://a/b/c/d;p?y"), ("g?y", "http://a/b/c/g?y"), ("#s", "http://a/b/c/d;p?q#s"), ("g#s", "http://a/b/c/g#s"), ("g?y#s", "http://a/b/c/g?y#s"),
         (";x", "http://a/b/c/;x"), ("g;x", "http://a/b/c/g;x"), ("g;x?y#s", "http://a/b/c/g;x?y#s"), ("", "http://a/b/c/d;p?q"), (".", "http://a/b/c/"),
         ("./", "http://a/b/c/"), ("..", "http://a/b/"), ("../", "http://a/b/"), ("../g", "http://a/b/g"), ("../..", "http://a/"), ("../../", "http://a/"),
         ("../../g", "http://a/g"), ("../../../g", "http://a/g"), ("../../../../g", "http://a/g"), ("/./g", "http://a/g"), ("/../g", "http://a/g"),
         ("g.", "http://a/b/c/g."), (".g", "http://a/b/c/.g"), ("g..", "http://a/b/c/g.."), ("..g", "http://a/b/c/..g"), ("./../g", "http://a/b/g"),
         ("./g/.", "http://a/b/c/g/"), ("g/./h", "http://a/b/c/g/h"), ("g/../h", "http://a/b/c/h"), ("g;x=1/./y", "http://a/b/c/g;x=1/y"),
         ("g;x=1/../y", "http://a/b/c/y"), ("g?y/./x", "http://a/b/c/g?y/./x"), ("g?y/../x", "http://a/b/c/g?y/../x"), ("g#s/./x", "http://a/b/c/g#s/./x"),
         ("g#s/../x", "http://a/b/c/g#s/../x"), ("http:g", "http:g")]


def dotted_absolute(text):
    """Absolute references with dot segments: the RFC removes them, the property takes them as they are; left open, as are odd ones."""
    if odd_reference(text): return True
    return any(re.match(r"[A-Za-z][A-Za-z0-9+.\-]*:", ref) and re.search(r"(^|/)\.\.?(/|$)", re.split("[?#]", ref.split(":", 1)[1])[0]) for ref in REF.findall(text))


def rnd_ref(r):
    x = r.random()
    seg = lambda: r.choice(["g", "h", ".", "..", "", "a:b", "é", "%2e", "...", ".g", "x;y"])
    path = "/".join(seg() for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5])))
    pre = "" if x < .5 else "/" if x < .65 else "./" if x < .7 else "../" * r.randrange(1, 5) if x < .8 else "//" + r.choice(["h", "h:8", "u@h", ""]) + r.choice(["", "/"]) if x < .88 else r.choice(["http://h", "urn:x:", "s:", "s:/"])
    return pre + path + (r.choice(["", "?", "?q", "?q/../r?"]) if r.random() < .4 else "") + (r.choice(["", "#", "#f", "#f/../?"]) if r.random() < .4 else "")


def rnd_base_doc(r):
    out, pres = [], []
    for _ in range(r.choice([2, 3, 4, 6, 9])):
        x = r.random()
        if x < .3:
            b = rnd_ref(r) if r.random() < .7 else r.choice(BASES)
            out.append("@base <%s> ." % b if r.random() < .5 else "BASE <%s>" % b)
        elif x < .5:
            p = r.choice(["p", "q", ""])
            pres.append(p)
            b = rnd_ref(r)
            out.append("@prefix %s: <%s> ." % (p, b) if r.random() < .5 else "PREFIX %s: <%s>" % (p, b))
        else:
            t = lambda: r.choice(pres) + ":" + r.choice(["", "x", "..", "y"]).replace("..", "\\.\\.") if pres and r.random() < .4 else "<%s>" % rnd_ref(r)
            o = t() if r.random() < .6 else '"v"^^' + t() if r.random() < .5 else "[ %s %s ]" % (t(), t()) if r.random() < .5 else "( %s %s )" % (t(), t())
            out.append("%s %s %s ." % (t(), t(), o))
    return "\n".join(out)


def resolving(c):
    c.model(vf.tlc_ok(vf.tlc("MCRFC3986", c.pick("MCRFC3986", "MCRFC3986Deep"), timeout=3000), "MCRFC3986"))
    # the examples of the RFC, which the specification has to reproduce
    res, ans = vf.evaluate("EvalTurtleDoc", [{"base": codes("http://a/b/c/d;p?q"), "text": codes("<x:s> <x:p> <%s> ." % a)} for a, _ in RFC54])
    for (a, b), m in zip(RFC54, ans):
        if text_term(m["out"][0][2])[1] != b: raise vf.MachineryError("RFC 3986 example %r: %r" % (a, m))
    random_texts(c, [("http://a/b/c/d;p?q", "<x:s> <x:p> <%s> ." % a) for a, _ in RFC54], "RFC 3986 examples")
    pieces = ["/", ".", "..", "g", "?", "#", ":", "//"]
    scs = []
    for i, b in enumerate(BASES):
        n = c.pick(4 if i in (0, 4, 11) else 3, 5 if i < 5 else 4)
        form = i % 3
        if form == 0: scs.append((b, "<x:s> <x:p> <", pieces, n, "> ."))
        elif form == 1: scs.append(("", "BASE <%s> <x:s> <x:p> <" % b, pieces, n, "> ."))
        else: scs.append(("z://z/", "@base <%s> . <x:s> <x:p> <" % b, pieces, n, "> ."))
        scs.append((b, "@base <", pieces, 2, "> . <x:s> <x:p> <../g?y>, <>, <#> ."))
        scs.append((b, "@prefix p: <", pieces, 2, "> . BASE <http://z/> p: p:x p:\\.\\. ."))
        scs.append((b, "@prefix p: <h> . PREFIX : <#> BASE <", pieces, 2, "> p: :a \"v\"^^<t>, :, p:x ."))
    explore_texts(c, scs, "IRI resolution", dotted_absolute)
    if c.enough(): return
    random_texts(c, [(c.rng.choice(BASES + [""] * 3), rnd_base_doc(c.rng)) for _ in range(c.pick(3000, 40000))], "IRI resolution", dotted_absolute)


def large_texts(r, deep):
    """Deep nesting, long lists, many statements, nodes and prefixes, long tokens."""
    for n in (40, 300, 1200) + ((4000,) if deep else ()):
        yield "<urn:s> <urn:p> " + "(" * n + ")" * n + " ."
        yield "(" * n + " 1 " + ")" * n + " <urn:p> 2 ."
        yield "<urn:s> <urn:p> " + "[ <urn:p> " * n + "1" + " ]" * n + " ."
        yield "[ <urn:p> ( 0 " * n + "1" + " 2 ) ]" * n + " ."
        yield "<urn:s> <urn:p> " + "[ <urn:p> ( 0 " * n + "1" + " ) ]" * (n - 1) + " ] ) ."
        yield "<urn:s> <urn:p> ( " + " ".join(map(str, range(n))) + " ) ."
        yield "<urn:s> <urn:p> ( " + "[] () " * (n // 2) + ") ."
        yield "<urn:s> <urn:p> " + ", ".join("[ <urn:q> %d ]" % i for i in range(n)) + " ."
        yield "<urn:s> " + " ; ".join("<urn:p%d> %d, _:b%d" % (i, i, i % 50) for i in range(n)) + " ."
        yield "".join("@prefix p%d: <urn:%d:> . p%d:s%d p%d:p _:b%d .\n" % (i % 9, i, r.randrange(i % 9 + 1) if i > 8 else i, i, i % 9, i) for i in range(n))
        yield "".join("@base <d%d/> . <> <p> <%d> .\n" % (i % 3, i) if i else "@base <http://b.example/> .\n" for i in range(n // 10))
    for n in (700, 1500) + ((4000,) if deep else ()):
        for q in ('"', "'", '"""', "\'\'\'"):
            yield '<urn:s> <urn:%s> %s%s%s . # %s' % ("z" * n, q, r.choice(["ab", "é", "\\n", "\\u0041", "\U0001F600"]) * (n // 6), q, "c" * n)
        yield "@prefix {0}: <urn:> . {0}:{0} {0}:p _:{0}, 'v'@en-{0}, {1} .".format("l" * n, "1" * n)
        yield "\n" * n + "<urn:s>" + " " * n + "<urn:p>" + "\t" * n + "<urn:o>" + "#\n" * n + "."
        yield "<urn:s> <urn:p> '%s ." % ("x" * n)


def run(c, prop):
    if prop == "C10": return lexing(c)
    if prop == "C11": return resolving(c)
    exhaustive(c)
    if not c.enough(): random_texts(c, [("http://b.example/", t) for t in large_texts(c.rng, c.thorough())], "large documents")
    if not c.enough(): random_documents(c, c.pick(3000, 40000))


if __name__ == "__main__":
    prop = sys.argv[1]
    vf.main(prop, lambda c: run(c, prop))
