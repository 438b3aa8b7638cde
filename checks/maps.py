"""C19, C20, C21, C28: CURIEs, maps, IRI normalization and environments against their specifications."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from pymantic.primitives import (BlankNode, Dataset, Graph, Literal, NamedNode, PrefixMap, Profile, Quad, RDFEnvironment, TermMap, Triple,
                                 parse_curie, to_curie)
from pymantic.uri_schemes import schemes as SCHEMES
from pymantic.util import normalize_iri, quote_normalized_iri

RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"


# ---- C19 -----------------------------------------------------------------------------------------

LIVING = []


def mapping(r, pairs, shuffle=True):
    """A prefix map as a user might have it: made for the purpose, or one that has long been in use."""
    pairs = list(pairs)
    if shuffle: r.shuffle(pairs)
    k = r.randrange(8)
    if k == 0: return dict(pairs)
    if k > 4:
        if not LIVING: LIVING.extend([PrefixMap(), {}])
        m = LIVING[k % 2]
        for p in [p for p in m if p not in dict(pairs)]: del m[p]
        for p, n in pairs: m[p] = n
        return m
    m = PrefixMap()
    if k == 1: m.update(pairs)
    elif k == 2: m.addAll(dict(pairs))
    else:
        for p, n in pairs:
            if p == "": m.setDefault(n)
            else: m[p] = r.choice([str, NamedNode])(n)
    return m


def resolvers(m):
    yield "parse_curie", lambda t: parse_curie(t, m)
    if isinstance(m, PrefixMap): yield "PrefixMap.resolve", m.resolve


def judge_resolved(c, m, text, want, info):
    """want: ["iri", text] / ["refused"] / ["open"], already a text."""
    if want[0] == "open": return
    ways = list(resolvers(m))
    if isinstance(m, PrefixMap) and ":" in text and c.rng.random() < .2:
        p = Profile(m.copy())
        if not any(text.lstrip("[").startswith(x + ":") for x in ("rdf", "xsd")): ways.append(("Profile.resolve", p.resolve))
    for name, f in ways:
        got, ex = vf.outcome(f, text)
        c.add("traces_validated_against_impl")
        if want[0] == "refused":
            if ex != "ValueError": c.violation("%s: not refused with ValueError" % name, dict(info, text=text, got=repr(got), error=ex))
        elif ex is not None or str(got) != want[1] or not isinstance(got, NamedNode):
            c.violation("%s gives another IRI" % name, dict(info, text=text, want=want[1], got=repr(got), error=ex))


def judge_shrunk(c, m, iri, want, info):
    ways = [("to_curie", lambda: to_curie(c.rng.choice([iri, NamedNode(iri)]), m))]
    if isinstance(m, PrefixMap): ways.append(("PrefixMap.shrink", lambda: m.shrink(iri)))
    for name, f in ways:
        got, ex = vf.outcome(f)
        c.add("traces_validated_against_impl")
        if ex is not None or str(got) not in want: c.violation("%s gives another text" % name, dict(info, iri=iri, want=want, got=repr(got), error=ex))
    got, ex = vf.outcome(to_curie, iri, m, explicit=True)
    ok = {"[%s]" % w for w in want} if any(iri.startswith(n) for n in m.values()) else {iri}
    if ex is not None or str(got) not in ok: c.violation("explicit abbreviation", dict(info, iri=iri, want=sorted(ok), got=repr(got), error=ex))
    if got != iri:
        back, ex = vf.outcome(parse_curie, str(got), m)
        if ex is not None or str(back) != iri: c.violation("resolving the abbreviation gives another IRI", dict(info, iri=iri, curie=got, got=repr(back), error=ex))


def words(alphabet, n):
    out = [[]]
    layer = [[]]
    for _ in range(n):
        layer = [w + [a] for w in layer for a in alphabet]
        out += layer
    return out


def curies(c):
    res, maps = vf.explore("MCCurie", c.pick("MCCurie", "MCCurieDeep"), timeout=3000)
    c.model(res)
    small = words([":", "a", "n", "s"], 4)
    iris = small
    texts = small + [["["] + w + ["]"] for w in words([":", "a", "n", "s"], 3)] + [["["], ["]"], ["[", "a"], ["a", "]"], ["[", "[", "a", ":", "n", "]", "]"], ["a", ":", "["], ["a", ":", "n", "]"]]
    if not c.thorough(): maps = c.rng.sample(maps, 500)
    inputs = [{"map": m, "schemes": [["s"]], "texts": texts, "iris": iris} for m in maps]
    res, ans = vf.evaluate("EvalCurie", inputs, timeout=3000)
    c.model(res)
    c.cov["maps"] = len(inputs)

    def part(c, k):
        for e, a in list(zip(inputs, ans))[k::16]:
            scheme = c.rng.choice(SCHEMES)
            tok = {"s": scheme, "a": c.rng.choice(["b", "x-1", "b.c", "_"]), "n": c.rng.choice(["Ω", "é", "//h/", "#"])}
            txt = lambda w: "".join(tok.get(x, x) for x in w)
            m = mapping(c.rng, [(txt(p), txt(n)) for p, n in e["map"]])
            if len(m) < len(e["map"]): continue
            info = {"map": dict(m)}
            for t, want in zip(e["texts"], a["res"]):
                judge_resolved(c, m, txt(t), [want[0], txt(want[1])] if len(want) > 1 else want, info)
            for i, want in zip(e["iris"], a["shr"]):
                judge_shrunk(c, m, txt(i), [txt(w) for w in want], info)
            if c.enough(): return
        c.sample({"map": dict(m), "text": txt(t), "outcome": want})
    c.parallel(part, range(16))
    if not c.enough(): random_curies(c)


def random_curies(c):
    """Realistic maps and texts, character by character."""
    r = c.rng
    hosts = ["http://e.example/", "http://e.example/a", "http://e.example/a#", "http://e.example/a/b", "urn:x:", "urn:", "http://é.example/ü#", "h", "", "mailto:a@b",
             "tag:e,2020:", "https://e.example/?q=a:b&c=", "HTTP://E.example/", "#", ":", "e:"]
    names = ["ex", "a", "", "p.q", "x-y", "foaf", "rdf", "http", "urn", "é", "data", "tag", "news", "h", "https", "e", "0", "iris.beep", "HTTP", "Data", "Urn"]
    rests = ["", "a", "a:b", ":", "::", "b/c#d", "%41", "]", "[", "a]", "[a]", "x y", "é", "http://e.example/a#a", "b", "//x"]
    inputs = []
    for _ in range(c.pick(600, 6000)):
        pairs = [(p, r.choice(hosts)) for p in r.sample(names, r.randrange(0, 6))]
        if r.random() < .05: pairs += [("p%d" % i, "http://e.example/%s/" % (i % 7) + "b" * (i // 7)) for i in range(r.choice([30, 70]))]
        texts, iris = [], []
        for _ in range(12):
            t = r.choice([p for p, _ in pairs] + names) + r.choice([":", ":", ":", ""]) + r.choice(rests)
            texts.append("[%s]" % t if r.random() < .3 else t)
            iris.append(r.choice([n for _, n in pairs] + hosts) + r.choice(rests))
        inputs.append({"map": [[list(p), list(n)] for p, n in pairs], "schemes": [list(s) for s in SCHEMES if any(t.lstrip("[").startswith(s) for t in texts)],
                       "texts": [list(t) for t in texts], "iris": [list(i) for i in iris]})
    res, ans = vf.evaluate("EvalCurie", inputs, timeout=3000)
    c.model(res)
    for e, a in zip(inputs, ans):
        m = mapping(r, [("".join(p), "".join(n)) for p, n in e["map"]])
        info = {"map": dict(m)}
        for t, want in zip(e["texts"], a["res"]): judge_resolved(c, m, "".join(t), [want[0], "".join(want[1])] if len(want) > 1 else want, info)
        for i, want in zip(e["iris"], a["shr"]): judge_shrunk(c, m, "".join(i), ["".join(w) for w in want], info)
        if c.enough(): return


# ---- C20 -----------------------------------------------------------------------------------------

class Values:
    """Texts for the specification's values."""

    def __init__(self, r, tokens):
        pool = ["http://v%d.example/#" % i for i in range(len(tokens) + 2)] + ["urn:v:", "relative", "é"]
        r.shuffle(pool)
        if r.random() < .3: pool[r.randrange(len(tokens))] = ""     # the empty IRI is an IRI too
        self.text = dict(zip(tokens, pool))
        self.text["rdf"], self.text["xsd"] = RDF, XSD
        self.tok = {v: k for k, v in self.text.items()}

    def name(self, iri, rests):
        """A resolved IRI as [value, rest]."""
        if iri is None: return ["None"]
        iri = str(iri)
        for r in sorted(rests, key=len, reverse=True):
            if iri.endswith(r) and iri[:len(iri) - len(r)] in self.tok: return [self.tok[iri[:len(iri) - len(r)]], r]
        return ["?" + iri, ""]


def ask_prefix(r, p, v, n, rest):
    """Resolve n:rest through a profile or its prefix map."""
    curie = n + ":" + rest
    f = r.choice([p.resolve, p.prefixes.resolve]) if isinstance(p, Profile) else p.resolve
    got, ex = vf.outcome(f, curie)
    return [ex] if ex else v.name(got, [rest])


def ask_term(r, p, v, t):
    f = r.choice([p.resolve, p.terms.resolve]) if isinstance(p, Profile) else p.resolve
    got, ex = vf.outcome(f, t)
    return [ex] if ex else v.name(got, ["", t])


def contents(p):
    """A profile's contents, to tell whether it changed."""
    return list(p.prefixes.items()), list(p.terms.items()), getattr(p.terms, "default", None)


def do(r, w, a, v):
    """Carry out one of the model's calls; is what it returned right?"""
    p = w[a[1]]
    if a[0] == "prefix":
        if a[2] == "": r.choice([p.setDefaultPrefix, p.prefixes.setDefault])(v.text[a[3]])
        elif r.random() < .5: p.setPrefix(a[2], v.text[a[3]])
        else: p.prefixes[a[2]] = r.choice([str, NamedNode])(v.text[a[3]])
    elif a[0] == "term":
        if r.random() < .5: p.setTerm(a[2], v.text[a[3]])
        else: p.terms[a[2]] = v.text[a[3]]
    elif a[0] == "vocabulary": r.choice([p.setDefaultVocabulary, p.terms.setDefault])(v.text[a[2]])
    else:
        q, o = w[a[2]], a[3]
        if a[0] == "import":
            if r.random() < .7: return (p.importProfile(q, override=o) if o or r.random() < .5 else p.importProfile(q)) is p
            return p.prefixes.addAll(q.prefixes, o) is p.prefixes and p.terms.addAll(q.terms, o) is p.terms
        s, t = (p.prefixes, q.prefixes) if a[0] == "importPrefixes" else (p.terms, q.terms)
        if r.random() < .3: t = dict(t)
        return (s.addAll(t, o) if o or r.random() < .5 else s.addAll(t)) is s
    return True


def maps(c):
    res, recs = vf.explore("MCMaps", timeout=600)
    c.model(res)
    if c.thorough(): c.model(vf.tlc_ok(vf.tlc("MCMaps", "MCMapsDeep", env={"OUT": "/dev/null"}, timeout=3000), "MCMapsDeep"))
    obs = {vf.key(r["s"]): r for r in recs if "s" in r}
    trans = [(vf.key(r["f"]), r["a"], vf.key(r["t"])) for r in recs if "f" in r]
    empty = {"pre": {"x": "none", "": "none"}, "term": {"t": "none", "u": "none"}, "def": "none"}
    walks = list(vf.edge_cover(trans, vf.key({"A": empty, "B": empty}), c.rng, 300))
    c.cov["walks"] = len(walks)

    def follow(c, walk):
        r = c.rng
        v = Values(r, ["v1", "v2"])
        mk = [Profile, RDFEnvironment, lambda: Profile(PrefixMap(), TermMap()), lambda: Profile(prefixes=PrefixMap()), lambda: Profile(terms=TermMap())]
        w = {"A": r.choice(mk)(), "B": r.choice(mk)()}
        rest = r.choice(["n", "", "a:b", "n/m"])
        log = []
        sparse = r.random() < .6
        for f, a, t in walk:
            log.append(a)
            other = [x for x in w if x != a[1]][0]
            was = contents(w[other])
            ok, ex = vf.outcome(do, r, w, a, v)
            c.add("replayed_transitions")
            if ex is not None or ok is not True: c.violation("a call failed or did not return its object", {"history": log[-8:], "error": ex})
            if contents(w[other]) != was: c.violation("another profile changed", {"history": log[-8:], "which": other})
            o = obs[t]
            if sparse and r.random() < .6: continue     # what was not looked at must not have been remembered either
            for k, p in w.items():
                fix = lambda x: [x[0], rest] if len(x) == 2 else x
                got = {"x": ask_prefix(r, p, v, "x", rest), "d": ask_prefix(r, p, v, "", rest), "z": ask_prefix(r, p, v, "zz", rest),
                       "t": ask_term(r, p, v, "t"), "u": ask_term(r, p, v, "u"), "w": ask_term(r, p, v, "w")}
                want = {x: fix(o[k][x]) if x in "xdz" else o[k][x] for x in got}
                if got != want: c.violation("resolution differs", {"history": log[-8:], "profile": k, "want": want, "got": got})
                for x in ("1", "2"):
                    s = p.terms.shrink(v.text["v" + x])
                    if s not in (o[k]["s" + x] or [v.text["v" + x]]): c.violation("shrinking a term", {"history": log[-8:], "want": o[k]["s" + x], "got": s})
                if p.resolve("rdf:type") != RDF + "type" or p.resolve("xsd:int") != XSD + "int":
                    c.violation("rdf or xsd unknown", {"history": log[-8:]})
            if c.enough(): return
        c.add("traces_validated_against_impl")

    def part(c, k):
        for walk in walks[k::16]:
            follow(c, walk)
            if c.enough(): return
        c.sample({"walk": [a for _, a, _ in walk[:6]]})
    c.parallel(part, range(16))
    if not c.enough(): map_histories(c)


PRE = ["x", "y", "", "long-name", "é", "rdf", "xsd"]
TERM = ["t", "u", "x", "Über", "y z"]


def state_of(p, v):
    """A profile's contents in the specification's terms."""
    full = lambda names, m: {n: v.tok[str(m[n])] if n in m else "none" for n in names}
    return {"pre": full(PRE, p.prefixes), "term": full(TERM, p.terms), "def": v.tok[p.terms.default] if hasattr(p.terms, "default") else "none"}


def map_histories(c):
    traces = []
    for _ in range(c.pick(400, 5000)):
        r = c.rng
        v = Values(r, ["v1", "v2", "v3"])
        vals = ["v1", "v2", "v3"]
        obj, ev = [], []
        for n in range(30):
            k = r.random()
            e = {"ret": True, "w": 0, "u": 0, "n": "", "v": "", "o": False}
            if not obj or (k < .12 and len(obj) < 5):
                pre = {x: r.choice(vals) for x in r.sample(PRE, r.randrange(4))}
                term = {x: r.choice(vals) for x in r.sample(TERM, r.randrange(4))}
                tm = TermMap({x: v.text[y] for x, y in term.items()})
                d = "none"
                if r.random() < .4:
                    d = r.choice(vals)
                    tm.setDefault(v.text[d])
                obj.append(r.choice([Profile, RDFEnvironment])(PrefixMap({x: v.text[y] for x, y in pre.items()}), tm))
                std = {"rdf": "rdf", "xsd": "xsd"}
                e.update(op="create", pre={x: pre.get(x, std.get(x, "none")) for x in PRE}, term={x: term.get(x, "none") for x in TERM}, **{"def": d})
            else:
                e["w"] = r.randrange(len(obj)) + 1
                p = obj[e["w"] - 1]
                if k < .3:
                    e.update(op="prefix", n=r.choice(PRE), v=r.choice(vals))
                    do(r, {1: p}, ["prefix", 1, e["n"], e["v"]], v)
                elif k < .45:
                    e.update(op="term", n=r.choice(TERM), v=r.choice(vals))
                    do(r, {1: p}, ["term", 1, e["n"], e["v"]], v)
                elif k < .55:
                    e.update(op="vocabulary", v=r.choice(vals))
                    do(r, {1: p}, ["vocabulary", 1, e["v"]], v)
                else:
                    e.update(op=r.choice(["import", "importPrefixes", "importTerms"]), u=r.randrange(len(obj)) + 1, o=r.random() < .5)
                    was = [contents(x) for x in obj]
                    ret = do(r, {1: p, 2: obj[e["u"] - 1]}, [e["op"], 1, 2, e["o"]], v)
                    e["ret"] = ret is True and all(contents(x) == y for x, y in zip(obj, was) if x is not p)
            q = []
            for _ in range(r.choice([0, 0, 1, 3, 8])):
                w = r.randrange(len(obj))
                k = r.choice(["pre", "pre", "term", "term", "shrink"])
                x = {"k": k, "w": w + 1}
                if k == "pre":
                    x["n"], x["r"] = r.choice(PRE + ["zz"]), r.choice(["n", "", "a:b"])
                    x["got"] = ask_prefix(r, obj[w], v, x["n"], x["r"])
                elif k == "term":
                    x["n"] = r.choice(TERM + ["unknown"])
                    x["got"] = ask_term(r, obj[w], v, x["n"])
                else:
                    x["n"] = r.choice(vals)
                    s, ex = vf.outcome(obj[w].terms.shrink, v.text[x["n"]])
                    x["got"] = [ex] if ex else ["same"] if s == v.text[x["n"]] else ["term", s]
                q.append(x)
            e["q"] = q
            ev.append(e)
        traces.append({"ev": ev})
    res, bad = vf.validate("TraceMaps", traces, timeout=3000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    for t, i, clause in bad[:4]:
        c.violation("a recorded history disagrees (%s)" % clause, {"history": [{k: x[k] for k in ("op", "w", "u", "n", "v", "o")} for x in traces[t]["ev"][:i + 1]], "event": traces[t]["ev"][i]})


# ---- C21 -----------------------------------------------------------------------------------------

def text(w): return "".join(map(chr, w))


def judge_iri(c, iri, norm, quoted):
    c.add("traces_validated_against_impl")
    if norm is not None:
        got, ex = vf.outcome(normalize_iri, iri)
        if ex is not None or got != norm: c.violation("normalization differs", {"iri": iri, "want": norm, "got": got, "error": ex})
        if c.rng.random() < .3:
            again, ex = vf.outcome(normalize_iri, norm)
            if ex is not None or again != norm: c.violation("normalizing twice differs", {"iri": iri, "once": norm, "twice": again, "error": ex})
    got, ex = vf.outcome(quote_normalized_iri, iri)
    if ex is not None or got != quoted: c.violation("quoting differs", {"iri": iri, "want": quoted, "got": got, "error": ex})
    if c.rng.random() < .2:
        got, ex = vf.outcome(NamedNode(iri).toNT)
        if ex is not None or got != "<%s>" % quoted: c.violation("toNT differs", {"iri": iri, "want": "<%s>" % quoted, "got": got, "error": ex})


def iris(c):
    res, recs = vf.explore("MCIriNorm", timeout=900)
    c.model(res)
    if c.thorough():
        for cfg in ("MCIriNormDeep", "MCIriNormWide"):
            res, more = vf.explore("MCIriNorm", cfg, timeout=3000)
            c.model(res)
            recs += more
    c.cov["iris"] = len(recs)

    def part(c, k):
        for w, n, q in recs[k::16]:
            judge_iri(c, text(w), text(n), text(q))
            if c.enough(): return
        c.sample({"iri": text(w), "normalized": text(n), "quoted": text(q)})
    c.parallel(part, range(16))
    if c.enough(): return
    r = c.rng
    ins = []
    for _ in range(c.pick(4000, 60000)):
        out = ""
        for _ in range(r.randrange(1, 12)):
            k = r.random()
            if k < .3: out += r.choice(["http://e/", "a", "b?c=", "#", "[", "~", "é", "日", "😀", "\u00a0", "-", "0", "<", " ", "\\", "\x7f", "\x00", "^", "\ufffe"])
            elif k < .55: out += "%%%02x" % r.randrange(256) if r.random() < .5 else "%%%02X" % r.randrange(256)
            elif k < .95:
                ch = chr(r.choice([r.randrange(128), r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)]))
                enc = "".join(("%%%02X" if r.random() < .7 else "%%%02x") % b for b in ch.encode())
                if r.random() < .15: enc = enc[:-3]
                if r.random() < .05: enc = enc.replace("%", "%%", 1)
                out += enc
            else: out += r.choice(["%", "%4", "%zz", "%C3%", "%e2%82"])
        ins.append({"w": [ord(x) for x in out]})
    for n in (40, 300, 300, 1200):
        w = [x for e in r.sample(ins, len(ins)) for x in e["w"]][:n * 2]
        gap = [ord(x) for x in r.choice(["-", "/", "%20", "\u00e9", "a%2F", "%41~", "_.", "%e9 "])]
        ins += [{"w": ([0x25, 0x34, 0x31 + r.randrange(9)] + gap) * n}, {"w": (gap + [0x25, 0x43, 0x33, 0x25, 0x61, 0x39]) * n}, {"w": (gap + [0x25, 0x66, 0x66]) * n + [0x25, 0x37, 0x65]}]
        ins += [{"w": w}, {"w": [97] * (n - 1) + [0x25, 0x43, 0x33, 0x25, 0x61, 0x39] * n}, {"w": [0x25, 0x37, 0x65] * n + [0xe9] * n}]
    res, ans = vf.evaluate("EvalIriNorm", ins, timeout=3000)
    c.model(res)
    for e, a in zip(ins, ans):
        judge_iri(c, text(e["w"]), text(a["norm"]) if a["wf"] else None, text(a["quote"]))
        if c.enough(): return


# ---- C28 -----------------------------------------------------------------------------------------

class Statements:
    """Statements by number."""

    def __init__(self):
        b = BlankNode()
        n = [NamedNode("http://e/%d" % i) for i in range(3)]
        self.t = [Triple(s, n[0], o) for s in (n[1], b) for o in (n[2], b, Literal("a"), Literal("a", "en"))]
        self.q = [Quad(*t, g) for t in self.t[::2] for g in (n[0], None)]

    def of(self, kind): return self.t if kind == "graph" else self.q


def env_history(r):
    v = Values(r, ["v1", "v2", "v3"])
    vals = ["v1", "v2", "v3"]
    names = ["x", "y", "", "rdf", "xsd", "t"]
    std = {n: {"rdf": "rdf", "xsd": "xsd"}.get(n, "none") for n in names}
    S = Statements()
    obj, sets, ev, blanks = [RDFEnvironment()], [], [], set()

    def pm(o): return o.prefixes if isinstance(o, Profile) else o if isinstance(o, PrefixMap) else None

    def tm(o): return o.terms if isinstance(o, Profile) else o if isinstance(o, TermMap) else None
    for _ in range(25):
        e = {"w": 0, "u": 0, "n": "", "v": "", "o": False, "empty": False, "what": "", "terms": True, "items": [], "item": 0}
        k = r.random()
        envs = [i for i, o in enumerate(obj) if isinstance(o, RDFEnvironment)]
        i = r.randrange(len(obj))
        o = obj[i]
        if k < .25 and len(obj) < 9:
            i = r.choice(envs)
            e.update(op="make", w=i + 1, what=r.choice(["profile", "prefixes", "terms", "profile", "environment"]), empty=r.random() < .25)
            env = obj[i]
            if e["what"] == "environment": new = RDFEnvironment()
            else:
                f = {"profile": env.createProfile, "prefixes": env.createPrefixMap, "terms": env.createTermMap}[e["what"]]
                new = f(e["empty"]) if r.random() < .5 else f(empty=e["empty"]) if e["empty"] or r.random() < .5 else f()
            obj.append(new)
        elif k < .4 and pm(o) is not None:
            e.update(op="prefix", w=i + 1, n=r.choice(names), v=r.choice(vals))
            if isinstance(o, Profile) and r.random() < .5: o.setPrefix(e["n"], v.text[e["v"]])
            elif e["n"] == "" and r.random() < .5: pm(o).setDefault(v.text[e["v"]])
            else: pm(o)[e["n"]] = v.text[e["v"]]
        elif k < .52 and tm(o) is not None:
            e.update(op="term", w=i + 1, n=r.choice(names), v=r.choice(vals))
            if isinstance(o, Profile) and r.random() < .5: o.setTerm(e["n"], v.text[e["v"]])
            else: tm(o)[e["n"]] = v.text[e["v"]]
        elif k < .6 and tm(o) is not None:
            e.update(op="vocabulary", w=i + 1, v=r.choice(vals))
            if isinstance(o, Profile) and r.random() < .5: o.setDefaultVocabulary(v.text[e["v"]])
            else: tm(o).setDefault(v.text[e["v"]])
        elif k < .66 and isinstance(o, Profile):
            j = r.choice([j for j, x in enumerate(obj) if isinstance(x, Profile)])
            e.update(op="import", w=i + 1, u=j + 1, o=r.random() < .5)
            o.importProfile(obj[j], e["o"])
        elif k < .8 and len(sets) < 6:
            kind = r.choice(["graph", "dataset"])
            items = [r.randrange(8) for _ in range(r.choice([0, 1, 3, 6]))]
            src = [S.of(kind)[x] for x in items]
            how = r.randrange(6)
            arg = [list, tuple, set, iter, lambda x: (Graph if kind == "graph" else Dataset)().addAll(x), list][how](src)
            same = [g for k2, g in sets if k2 == kind]
            if how == 5 and same:       # from one that is around, and may change later on
                arg = r.choice(same)
                items = [S.of(kind).index(x) for x in arg]
            env = obj[r.choice(envs)]
            f = env.createGraph if kind == "graph" else env.createDataset
            sets.append((kind, f(arg) if items or r.random() < .5 else f()))
            e.update(op="makeset", items=items)
            if how in (0, 2) and r.random() < .5: arg.clear()
            if how == 4: arg.add(S.of(kind)[r.randrange(8)])
        elif k < .92 and sets:
            j = r.randrange(len(sets))
            kind, g = sets[j]
            x = r.randrange(8)
            st = S.of(kind)[x]
            e.update(op=r.choice(["addto", "dropfrom"]), w=j + 1, item=x)
            if e["op"] == "addto": g.add(st)
            elif st in g: g.remove(st)
        else:
            env = obj[r.choice(envs)]
            e["op"] = "terms"
            b = [env.createBlankNode() for _ in range(3)]
            n = env.createNamedNode("http://e/é")
            l1, l2, l3 = env.createLiteral("a"), env.createLiteral("a", "en"), env.createLiteral("5", None, NamedNode(XSD + "integer"))
            t, q = env.createTriple(b[0], n, l2), env.createQuad(b[0], n, l3, n)
            e["terms"] = (len(set(b)) == 3 and not blanks & set(b) and type(n) is NamedNode and n == "http://e/é"
                          and (l1, l2, l3) == (Literal("a"), Literal("a", "en"), Literal("5", None, NamedNode(XSD + "integer")))
                          and (t.subject, t.predicate, t.object) == (b[0], n, l2) and type(t) is Triple
                          and (q.subject, q.predicate, q.object, q.graph) == (b[0], n, l3, n) and type(q) is Quad
                          and env.createLiteral(5) == Literal("5", None, NamedNode(XSD + "integer"))
                          and env.createLiteral(value="x", language="fr") == Literal("x", "fr") and env.createLiteral("x", datatype=n) == Literal("x", None, n))
            blanks |= set(b)
        qs = []
        for _ in range(r.choice([0, 1, 3, 10])):
            w = r.randrange(len(obj))
            o = obj[w]
            if r.random() < .5 and pm(o) is not None:
                n, rest = r.choice(names), r.choice(["n", "a:b"])
                qs.append({"k": "pre", "w": w + 1, "n": n, "r": rest, "got": ask_prefix(r, o, v, n, rest)})
            elif tm(o) is not None:
                n = r.choice(names[:3] + ["t"])
                qs.append({"k": "term", "w": w + 1, "n": n, "r": "", "got": ask_term(r, o, v, n)})
        e["q"] = qs
        look = r.choice([0, .3, 1])
        e["sets"] = [{"w": j + 1, "got": [S.of(kind).index(x) if x in S.of(kind) else 99 for x in g]} for j, (kind, g) in enumerate(sets) if r.random() < look]
        for j, (kind, g) in enumerate(sets):
            if type(g) is not (Graph if kind == "graph" else Dataset): e["terms"] = False
        ev.append(e)
    return {"std": std, "ev": ev}


def environments(c):
    traces = [env_history(c.rng) for _ in range(c.pick(600, 8000))]
    res, bad = vf.validate("Environment", traces, timeout=3000)
    c.model(res)
    c.add("traces_validated_against_impl", len(traces))
    c.sample({"history": [(e["op"], e["what"]) for e in traces[0]["ev"]]})
    for t, i, clause in bad[:4]:
        c.violation("a recorded history disagrees (%s)" % clause,
                    {"history": [{k: x[k] for k in ("op", "what", "w", "u", "n", "v", "o", "empty")} for x in traces[t]["ev"][:i + 1]], "event": traces[t]["ev"][i]})


if __name__ == "__main__":
    prop = sys.argv[1]
    vf.main(prop, {"C19": curies, "C20": maps, "C21": iris, "C28": environments}[prop])
