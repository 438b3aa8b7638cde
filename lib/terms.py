"""Concrete RDF terms for abstract tokens, and projection back to tokens."""
from pymantic.primitives import BlankNode, Literal, NamedNode, Triple, Quad

XSD = "http://www.w3.org/2001/XMLSchema#"


class World:
    """Maps tokens to makers of (fresh, equal) term objects, and terms back to tokens."""

    def __init__(self, makers):
        self.makers = makers
        self.rev = {}
        self.turn, self.one = 0, {}
        for tok, mk in makers.items():
            t = mk()
            self.rev.setdefault((self.kind(t), t), []).append(tok)

    @staticmethod
    def kind(t):
        if isinstance(t, Literal):
            return "l"
        if isinstance(t, BlankNode):
            return "b"
        if isinstance(t, NamedNode):
            return "i"
        return type(t).__name__

    def term(self, tok):
        """A term for a token: mostly a new object equal to the others, at times the very same object."""
        self.turn += 1
        t = self.makers[tok]()
        return self.one.setdefault((self.kind(t), t), t) if self.turn // 7 % 3 == 0 else t

    def tok(self, t, pos=""):
        """The token of a term; where one term has several, the one named after the position."""
        try:
            toks = self.rev[(self.kind(t), t)]
        except (KeyError, TypeError):
            return "?" + repr(t)[:60]
        for x in toks:
            if pos and x.startswith(pos):
                return x
        return toks[0]

    def triple(self, toks):
        return Triple(*[self.term(x) for x in toks])

    def quad(self, toks):
        return Quad(*[self.term(x) for x in toks])

    def toks(self, st, n=3):
        try:
            parts = [st.subject, st.predicate, st.object] + ([st.graph] if n == 4 else [])
            if len(st) != n:
                return ["?"] * n
        except Exception:
            return ["?"] * n
        return [self.tok(x, p) for x, p in zip(parts, "spog")]


def iri(s):
    return lambda: NamedNode(s[:1] + s[1:])


def lit(v, lang=None, dt=None):
    return lambda: Literal("" + v, lang, NamedNode(dt) if dt else None)


def bn():
    b = BlankNode()
    return lambda: b


def none():
    return None
