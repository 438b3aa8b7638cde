"""Projection of pymantic terms to plain values, and isomorphism of statement sets.

A term is ("i", iri), ("l", text, language, datatype), ("b", node) or ("d",) for the default graph."""
import collections

from pymantic.primitives import BlankNode, Literal, NamedNode


class Ids:
    """Numbers blank nodes by what they are equal to."""

    def __init__(self):
        self.m = {}

    def __call__(self, b):
        return self.m.setdefault(b, len(self.m))


def proj(t, ids):
    if t is None:
        return ("d",)
    if isinstance(t, Literal):
        if not isinstance(t.value, str) or not isinstance(t.language or "", str) or not isinstance(t.datatype or "", str):
            return ("?", repr(t)[:80])
        # plain strings, whatever subclass of str the parser used
        return ("l", str.__str__(t.value), str.__str__(t.language or "").lower(), str.__str__(t.datatype or ""))
    if isinstance(t, BlankNode):
        return ("b", ids(t))
    if isinstance(t, NamedNode):
        return ("i", str.__str__(t))
    return ("?", repr(t)[:80])


def proj_all(g, ids=None):
    """Every statement of a graph or dataset, in iteration order."""
    ids = ids or Ids()
    return [tuple(proj(x, ids) for x in st) for st in g]


def from_spec(t):
    v = "".join(map(chr, t["v"]))
    if t["k"] == "i":
        return ("i", v)
    if t["k"] == "b":
        return ("b", v)
    return ("l", v, "".join(map(chr, t["g"])).lower(), "".join(map(chr, t["d"])))


def from_spec_all(out, quads=False):
    res = []
    for st in out:
        r = [from_spec(t) for t in st]
        if quads and len(r) == 3:
            r.append(("d",))
        res.append(tuple(r))
    return res


def codes(s):
    return [ord(c) for c in s]


def to_spec(t):
    """A projected term as a record of the specifications."""
    if t[0] == "l":
        return {"k": "l", "v": codes(t[1]), "g": codes(t[2]), "d": codes(t[3])}
    if t[0] == "b":
        return {"k": "b", "v": codes("n%s" % t[1]), "g": [], "d": []}
    return {"k": t[0], "v": codes(t[1]), "g": [], "d": []}


def iso(a, b):
    """A bijection of blank nodes taking statement set a to b, or None."""
    a, b = set(a), set(b)
    if len(a) != len(b):
        return None
    na = {t for st in a for t in st if t[0] == "b"}
    nb = {t for st in b for t in st if t[0] == "b"}
    if len(na) != len(nb):
        return None
    if {st for st in a if not any(t[0] == "b" for t in st)} != {st for st in b if not any(t[0] == "b" for t in st)}:
        return None
    a = {st for st in a if any(t[0] == "b" for t in st)}
    b = {st for st in b if any(t[0] == "b" for t in st)}

    def around(stmts):
        inc, near = collections.defaultdict(list), collections.defaultdict(set)
        for st in stmts:
            ns = {t for t in st if t[0] == "b"}
            for n in ns:
                inc[n].append(st)
                near[n] |= ns
        return inc, near
    sides = {0: around(a), 1: around(b)}

    def refine(side, col, dirty):
        """Stable colouring; colours are comparable between the two sides."""
        inc, near = sides[side]
        col = dict(col)
        size = collections.Counter(col.values())
        while dirty:
            groups = collections.defaultdict(list)
            for n in dirty:
                sig = hash((col[n], tuple(sorted(hash(tuple("*" if t == n else col[t] if t[0] == "b" else t for t in st)) for st in inc[n]))))
                groups[col[n]].append((n, sig))
            new = {}
            for k, ns in groups.items():
                if len(ns) < size[k] or len({x for _, x in ns}) > 1:
                    new.update(ns)
            for n, k in new.items():
                size[col[n]] -= 1
                size[k] += 1
                col[n] = k
            dirty = {m for n in new for m in near[n]}
        return col

    def solve(ca, cb, da, db, depth):
        ca, cb = refine(0, ca, da), refine(1, cb, db)
        ga, gb = collections.defaultdict(list), collections.defaultdict(list)
        for n in na: ga[ca[n]].append(n)
        for n in nb: gb[cb[n]].append(n)
        if {k: len(v) for k, v in ga.items()} != {k: len(v) for k, v in gb.items()}:
            return None
        multi = [k for k in ga if len(ga[k]) > 1]
        if not multi:
            m = {ga[k][0]: gb[k][0] for k in ga}
            return m if {tuple(m.get(t, t) for t in st) for st in a} == b else None
        k = min(multi, key=lambda k: len(ga[k]))
        x = ga[k][0]
        for y in gb[k]:
            m = solve(dict(ca) | {x: -depth}, dict(cb) | {y: -depth}, {x} | sides[0][1][x], {y} | sides[1][1][y], depth + 1)
            if m is not None:
                return m
        return None

    return solve({n: 0 for n in na}, {n: 0 for n in nb}, na, nb, 2)
