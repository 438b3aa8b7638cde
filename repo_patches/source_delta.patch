From 4c81a166d15ea6de71f662d2412898bc0419f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 01/60] fix: escape control characters in N-Triples output
 instead of dropping them

---
 src/pymantic/serializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index dffe7fe..81e512b 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -24,7 +24,7 @@ def nt_escape(node_string):
             and char <= "\u007E"
         ):
             output_string += char
-        elif char >= "\u007F" and char <= "\uFFFF":
+        elif char <= "\u001F" or char >= "\u007F" and char <= "\uFFFF":
             output_string += "\\u%04X" % ord(char)
         elif char >= "\U00010000" and char <= "\U0010FFFF":
             output_string += "\\U%08X" % ord(char)
-- 
2.43.0


From fddc6e206342cfbcabe5cec78931807e4e06b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 02/60] fix: stringify quads as N-Quads statements

---
 src/pymantic/primitives.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 27ca35c..f53a8a4 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -211,7 +211,12 @@ class Quad(tuple):
     graph = property(itemgetter(3))
 
     def __str__(self):
-        return f"{str(self.subject)} {str(self.predicate)} {str(self.object)} {str(self.graph)} .\n"
+        statement = (
+            f"{self.subject.toNT()} {self.predicate.toNT()} {self.object.toNT()}"
+        )
+        if self.graph is not None:
+            statement += f" {self.graph.toNT()}"
+        return statement + " .\n"
 
 
 def q_as_t(quad):
-- 
2.43.0


From fccc8b4526ae49b994b6f04c239bdbddeb3a67bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 03/60] fix: do not remove matches while iterating over them

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index f53a8a4..b98f71c 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -462,7 +462,7 @@ class Graph:
     def removeMatches(self, subject, predicate, object):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for triple in self.match(subject, predicate, object):
+        for triple in list(self.match(subject, predicate, object)):
             self.remove(triple)
         return self
 
@@ -548,7 +548,7 @@ class Dataset:
     def removeMatches(self, subject=None, predicate=None, object=None, graph=None):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for quad in self.match(subject, predicate, object, graph):
+        for quad in list(self.match(subject, predicate, object, graph)):
             self.remove(quad)
         return self
 
-- 
2.43.0


From d01a90b31e2c6c300a4a575efc74cf54d1c9d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:21 +0000
Subject: [PATCH 04/60] fix: drop index entries of terms that no longer occur
 after a removal

---
 src/pymantic/primitives.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index b98f71c..c6dffae 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -398,11 +398,20 @@ class Graph:
         """Removes the specified Triple from the graph. This method returns the
         graph instance it was called on."""
         self._triples.remove(triple)
-        del self._spo[triple.subject][triple.predicate][triple.object]
-        del self._pos[triple.predicate][triple.object][triple.subject]
-        del self._osp[triple.object][triple.subject][triple.predicate]
+        self._unindex(self._spo, triple.subject, triple.predicate, triple.object)
+        self._unindex(self._pos, triple.predicate, triple.object, triple.subject)
+        self._unindex(self._osp, triple.object, triple.subject, triple.predicate)
         return self
 
+    @staticmethod
+    def _unindex(index, first, second, third):
+        """Remove an index entry, along with the levels it leaves empty."""
+        del index[first][second][third]
+        if not index[first][second]:
+            del index[first][second]
+            if not index[first]:
+                del index[first]
+
     def match(self, subject=None, predicate=None, object=None):
         """This method returns a new sequence of triples which is comprised of
         all those triples in the current instance which match the given
-- 
2.43.0


From 1e1f71f20a554f6958a30153fc997401928694ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 05/60] fix: only None is a wildcard when matching

---
 src/pymantic/primitives.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index c6dffae..221314e 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -430,9 +430,9 @@ class Graph:
         This method implements AND functionality, so only triples matching all
         of the given non-null arguments will be included in the result.
         """
-        if subject:
-            if predicate:  # s, p, ???
-                if object:  # s, p, o
+        if subject is not None:
+            if predicate is not None:  # s, p, ???
+                if object is not None:  # s, p, o
                     if Triple(subject, predicate, object) in self:
                         yield Triple(subject, predicate, object)
                 else:  # s, p, ?var
@@ -440,7 +440,7 @@ class Graph:
                         for triple in self._spo[subject][predicate].values():
                             yield triple
             else:  # s, ?var, ???
-                if object:  # s, ?var, o
+                if object is not None:  # s, ?var, o
                     if object in self._osp and subject in self._osp[object]:
                         for triple in self._osp[object][subject].values():
                             yield triple
@@ -449,8 +449,8 @@ class Graph:
                         for predicate in self._spo[subject]:
                             for triple in self._spo[subject][predicate].values():
                                 yield triple
-        elif predicate:  # ?var, p, ???
-            if object:  # ?var, p, o
+        elif predicate is not None:  # ?var, p, ???
+            if object is not None:  # ?var, p, o
                 if predicate in self._pos and object in self._pos[predicate]:
                     for triple in self._pos[predicate][object].values():
                         yield triple
@@ -459,7 +459,7 @@ class Graph:
                     for object in self._pos[predicate]:
                         for triple in self._pos[predicate][object].values():
                             yield triple
-        elif object:  # ?var, ?var, o
+        elif object is not None:  # ?var, ?var, o
             if object in self._osp:
                 for subject in self._osp[object]:
                     for triple in self._osp[object][subject].values():
@@ -545,7 +545,7 @@ class Dataset:
         return self._graphs.values()
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
-        if graph:
+        if graph is not None:
             matches = self._graphs[graph].match(subject, predicate, object)
             for match in matches:
                 yield t_as_q(graph, match)
-- 
2.43.0


From ad2e52755fb364621f55a1f07bb7f7692ed292e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:42 +0000
Subject: [PATCH 06/60] fix: a graph made without a name has none

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 221314e..5031108 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -367,7 +367,7 @@ class Graph:
     set/sequence API for `in`, `for`, and `len`"""
 
     def __init__(self, graph_uri=None):
-        if not isinstance(graph_uri, NamedNode):
+        if graph_uri is not None and not isinstance(graph_uri, NamedNode):
             graph_uri = NamedNode(graph_uri)
         self._uri = graph_uri
         self._triples = set()
-- 
2.43.0


From 4fb4adce90d145ad7d94e6ea449845299c8dc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:45 +0000
Subject: [PATCH 07/60] fix: matching or removing in an unknown graph does not
 create it

---
 src/pymantic/primitives.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 5031108..c929c80 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -527,6 +527,8 @@ class Dataset:
         self._graphs[quad.graph].add(q_as_t(quad))
 
     def remove(self, quad):
+        if quad.graph not in self._graphs:
+            raise KeyError(quad)
         self._graphs[quad.graph].remove(q_as_t(quad))
 
     def add_graph(self, graph, named=None):
@@ -546,9 +548,10 @@ class Dataset:
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
         if graph is not None:
-            matches = self._graphs[graph].match(subject, predicate, object)
-            for match in matches:
-                yield t_as_q(graph, match)
+            if graph in self._graphs:
+                matches = self._graphs[graph].match(subject, predicate, object)
+                for match in matches:
+                    yield t_as_q(graph, match)
         else:
             for graph_uri, graph in self._graphs.items():
                 for match in graph.match(subject, predicate, object):
-- 
2.43.0


From b3fedd1f247347010d6623c1e9a107de6ef503f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:49 +0000
Subject: [PATCH 08/60] fix: iterating a dataset reports the names its graphs
 are held under

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index c929c80..1ec3e9e 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -585,9 +585,9 @@ class Dataset:
                     return True
 
     def __iter__(self):
-        for graph in self._graphs.values():
+        for graph_uri, graph in self._graphs.items():
             for triple in graph:
-                yield t_as_q(graph.uri, triple)
+                yield t_as_q(graph_uri, triple)
 
     def toArray(self):
         return frozenset(self)
-- 
2.43.0


From 8ea45c0aa505f251ed06835b569dfead49bb898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 09/60] fix: implement Dataset.remove_graph

---
 src/pymantic/primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 1ec3e9e..f9a29a5 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -540,7 +540,10 @@ class Dataset:
             raise ValueError("Graph must be named")
 
     def remove_graph(self, graph_or_uri):
-        pass
+        """Removes a graph, given either itself or its name."""
+        if isinstance(graph_or_uri, Graph):
+            graph_or_uri = graph_or_uri.uri
+        del self._graphs[graph_or_uri]
 
     @property
     def graphs(self):
-- 
2.43.0


From a6c48fa9cbf510e3b952d6cd027f954094ef0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:05 +0000
Subject: [PATCH 10/60] fix: take every statement of a streamed line, be it
 none or several

---
 src/pymantic/parsers/lark/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index 06425cf..f5f262f 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -9,7 +9,7 @@ class LarkParser:
     def line_by_line_parser(self, stream):
         for line in stream:  # Equivalent to readline
             if line:
-                yield next(self.lark.parse(line))
+                yield from self.lark.parse(line)
 
     def parse(self, string_or_stream, graph=None):
         """Parse a string or file-like object into RDF primitives and add
-- 
2.43.0


From b27c048857324cfa67f3096ca66d13702463fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 11/60] fix: accept binary streams in the line-based parsers

---
 src/pymantic/parsers/lark/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index f5f262f..8708ffe 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -8,6 +8,8 @@ class LarkParser:
 
     def line_by_line_parser(self, stream):
         for line in stream:  # Equivalent to readline
+            if isinstance(line, bytes):
+                line = line.decode("utf-8")
             if line:
                 yield from self.lark.parse(line)
 
-- 
2.43.0


From 4bb2340d72b6007f12af3afe58d8c25bd26848f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 12/60] fix: allow every digit in N-Triples language subtags

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 533cb4e..51aad40 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -33,7 +33,7 @@ quad: subject predicate object graph "."
 ?graph: iriref
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
-LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0_9]/+)*
+LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
 iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
-- 
2.43.0


From 5461ca1e9123db51200d7227fd1866b81dbd5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:15 +0000
Subject: [PATCH 13/60] fix: keep punctuation out of N-Triples blank node
 labels

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 51aad40..a76f6a7 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -40,7 +40,7 @@ STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
 ECHAR: "\\" /[tbnrf"'\\]/
-PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u10000-\uEFFFF]/
+PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]/
 PN_CHARS_U: PN_CHARS_BASE | "_" | ":"
 PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
-- 
2.43.0


From 6513968bbb93999f98ef33317028c19b76f6145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 14/60] fix: reject white space inside N-Triples IRIs

---
 src/pymantic/parsers/lark/ntriples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index a76f6a7..46f15b0 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -35,7 +35,8 @@ literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
-iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
+iriref: IRIREF
+IRIREF: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
@@ -57,8 +58,8 @@ class NTriplesTransformer(BaseParser, Transformer):
         return self.make_blank_node(bn_label.value)
 
     def iriref(self, children):
-        iri = "".join(children)
-        iri = decode_literal(iri)
+        (iriref,) = children
+        iri = decode_literal(iriref[1:-1])  # Remove <>
         return self.make_named_node(iri)
 
     def literal(self, children):
-- 
2.43.0


From 5c2d448e6559ba4821c6765a9e23d1fd2eee007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 15/60] fix: allow comments and lines of white space in
 N-Triples and N-Quads

---
 src/pymantic/parsers/lark/ntriples.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 46f15b0..c80bf08 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -18,10 +18,10 @@ from pymantic.util import decode_literal
 
 from .base import LarkParser
 
-grammar = r"""triples_start: triple? (EOL triple)* EOL?
+grammar = r"""triples_start: triple? (EOL triple?)*
 triple: subject predicate object "."
 
-quads_start: quad? (EOL quad)* EOL?
+quads_start: quad? (EOL quad?)*
 quad: subject predicate object graph "."
 
 ?subject: iriref
@@ -47,6 +47,8 @@ PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
 
 %ignore /[ \t]/+
+COMMENT: "#" /[^\r\n]/*
+%ignore COMMENT
 """
 
 
-- 
2.43.0


From 72e63287181a812c0e31c7b04359c6a08a896aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 16/60] fix: parse N-Quads into a dataset, with optional and
 blank node graph labels

---
 src/pymantic/parsers/lark/nquads.py   | 6 +++++-
 src/pymantic/parsers/lark/ntriples.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index 1041663..dd000b7 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -21,8 +21,12 @@ from .ntriples import NTriplesTransformer, grammar
 class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
+    def _make_graph(self):
+        return self.env.createDataset()
+
     def quad(self, children):
-        subject, predicate, object_, graph = children
+        subject, predicate, object_ = children[:3]
+        graph = children[3] if len(children) > 3 else None
         return self.make_quad(subject, predicate, object_, graph)
 
     def quads_start(self, children):
diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index c80bf08..b189f90 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -22,7 +22,7 @@ grammar = r"""triples_start: triple? (EOL triple?)*
 triple: subject predicate object "."
 
 quads_start: quad? (EOL quad?)*
-quad: subject predicate object graph "."
+quad: subject predicate object graph? "."
 
 ?subject: iriref
         | BLANK_NODE_LABEL -> blank_node_label
@@ -31,6 +31,7 @@ quad: subject predicate object graph "."
        | BLANK_NODE_LABEL -> blank_node_label
        | literal
 ?graph: iriref
+      | BLANK_NODE_LABEL -> blank_node_label
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
-- 
2.43.0


From 8942c766fe2e05826f8a352cdb063ec1eca511b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 17/60] fix: read Turtle from streams

---
 src/pymantic/parsers/lark/turtle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index cde16f6..3993717 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -289,10 +289,8 @@ def parse(string_or_stream, graph=None, base=""):
         # Presume string.
         string = string_or_stream
 
-    if isinstance(string_or_stream, bytes):
-        string = string_or_stream.decode("utf-8")
-    else:
-        string = string_or_stream
+    if isinstance(string, bytes):
+        string = string.decode("utf-8")
 
     tree = turtle_lark.parse(string)
     tr = TurtleTransformer(base_iri=base)
-- 
2.43.0


From b15b226ca60ba148dcb04723999ac7c228245402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 18/60] fix: a carriage return ends a Turtle comment

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 3993717..db30e24 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -91,7 +91,7 @@ HEX: /[0-9A-Fa-f]/
 PN_LOCAL_ESC: "\\" /[_~\.\-!$&'()*+,;=\/?#@%]/
 
 %ignore WS
-COMMENT: "#" /[^\n]/*
+COMMENT: "#" /[^\r\n]/*
 %ignore COMMENT
 """
 
-- 
2.43.0


From efce8be2ca2ff78835bef4690cefc245b8ec23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 19/60] fix: unpack nested nodes in Turtle object lists

---
 src/pymantic/parsers/lark/turtle.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index db30e24..c08cd65 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -122,16 +122,15 @@ def unpack_predicate_object_list(subject, pol):
                 raise ValueError(predicate)
             predicate = RDF_TYPE
 
-        if not isinstance(object_, (NamedNode, Literal, BlankNode)):
-            if isinstance(object_, Tree):
-                object_ = object_.children
-            for triple_or_node in object_:
-                if isinstance(triple_or_node, Triple):
-                    yield triple_or_node
-                else:
-                    object_ = triple_or_node
-                    yield Triple(subject, predicate, object_)
-        else:
+        objects = object_.children if isinstance(object_, Tree) else [object_]
+        for object_ in objects:
+            if not isinstance(object_, (NamedNode, Literal, BlankNode)):
+                for triple_or_node in object_:
+                    if isinstance(triple_or_node, Triple):
+                        yield triple_or_node
+                    else:
+                        object_ = triple_or_node
+                        break
             yield Triple(subject, predicate, object_)
 
 
-- 
2.43.0


From 7ab4b5eccd38024238e7844d00de837b00ecdb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 20/60] fix: reject IRIs ending in an escaped line feed

---
 src/pymantic/parsers/lark/turtle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index c08cd65..3f9e5f1 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -98,11 +98,11 @@ COMMENT: "#" /[^\r\n]/*
 turtle_lark = Lark(grammar, start="turtle_doc", parser="lalr")
 
 
-LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
+LEGAL_IRI = re.compile(r'[^\x00-\x20<>"{}|^`\\]*')
 
 
 def validate_iri(iri):
-    if not LEGAL_IRI.match(iri):
+    if not LEGAL_IRI.fullmatch(iri):
         raise ValueError("Illegal characters in IRI: " + iri)
     return iri
 
-- 
2.43.0


From 2aef6a85ec459eef23e4195ac9a9d6cbb2555d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:14 +0000
Subject: [PATCH 21/60] fix: resolve relative IRIs by the algorithm of RFC 3986

---
 src/pymantic/util.py | 73 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 47cb589..6b833c2 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -89,15 +89,74 @@ def quote_normalized_iri(normalized_iri):
     return quote(normalized_uri, safe="".join(reserved_in_iri))
 
 
+uri_reference_re = re.compile(
+    r"(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?", re.DOTALL
+)
+
+
+def split_uri_reference(reference):
+    """Split a URI reference into scheme, authority, path, query and fragment.
+    Apart from the path, those that are absent are None."""
+    return uri_reference_re.fullmatch(reference).groups()
+
+
+def remove_dot_segments(path):
+    """Remove the . and .. segments from a path (RFC 3986, section 5.2.4)."""
+    output = []
+    while path:
+        if path.startswith("../"):
+            path = path[3:]
+        elif path.startswith("./") or path.startswith("/./"):
+            path = path[2:]
+        elif path == "/.":
+            path = "/"
+        elif path.startswith("/../") or path == "/..":
+            path = "/" + path[4:]
+            if output:
+                output.pop()
+        elif path in (".", ".."):
+            path = ""
+        else:
+            end = path.find("/", 1)
+            if end < 0:
+                end = len(path)
+            output.append(path[:end])
+            path = path[end:]
+    return "".join(output)
+
+
 def smart_urljoin(base, url):
-    """urljoin, only an empty fragment from the relative(?) URL will be
-    preserved.
+    """Resolve a URI reference against a base URI by the strict algorithm of
+    RFC 3986, section 5.2. Absolute URIs are returned as they are.
     """
-    from urllib.parse import urljoin
-
-    joined = urljoin(base, url)
-    if url.endswith("#") and not joined.endswith("#"):
-        joined += "#"
+    scheme, authority, path, query, fragment = split_uri_reference(url)
+    if scheme is not None or not base:
+        return url
+    b_scheme, b_authority, b_path, b_query, _ = split_uri_reference(base)
+    if authority is None:
+        if not path:
+            path = b_path
+            if query is None:
+                query = b_query
+        else:
+            if not path.startswith("/"):
+                if b_authority is not None and not b_path:
+                    path = "/" + path
+                else:
+                    path = b_path[: b_path.rfind("/") + 1] + path
+            path = remove_dot_segments(path)
+        authority = b_authority
+    else:
+        path = remove_dot_segments(path)
+
+    joined = "" if b_scheme is None else b_scheme + ":"
+    if authority is not None:
+        joined += "//" + authority
+    joined += path
+    if query is not None:
+        joined += "?" + query
+    if fragment is not None:
+        joined += "#" + fragment
     return joined
 
 
-- 
2.43.0


From c149012c0d59c6eda9e06ba411987efdd8deb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 22/60] fix: name blank nodes in Turtle output

---
 src/pymantic/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 81e512b..1a371a7 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -46,7 +46,7 @@ def serialize_nquads(dataset, f):
 def default_bnode_name_generator():
     i = 0
     while True:
-        yield "_b" + str(i)
+        yield "_:b" + str(i)
         i += 1
 
 
@@ -83,7 +83,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         if node in name_map:
             name = name_map[node]
         else:
-            name = bnode_name_maker.next()
+            name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
         if node.datatype == profile.resolve("xsd:string"):
-- 
2.43.0


From dded4d46e6033c157bd771695f68d9be92d98c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 23/60] fix: escape strings in Turtle output

---
 src/pymantic/serializers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 1a371a7..171e185 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -61,9 +61,7 @@ def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
 
-    for escaped, value in ECHAR_MAP.items():
-        string = string.replace(value, "\\" + escaped)
-    return '"' + string + '"'
+    return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
-- 
2.43.0


From 8a55e6b4830ee037099e50cc4030f224a1ad0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:12 +0000
Subject: [PATCH 24/60] fix: escape local names in Turtle output

---
 src/pymantic/serializers.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 171e185..aeff8a4 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+import re
 
 
 def nt_escape(node_string):
@@ -50,10 +51,23 @@ def default_bnode_name_generator():
         i += 1
 
 
+PN_CHARS_U = (
+    "A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF"
+    "\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF"
+    "\uFDF0-\uFFFD\U00010000-\U000EFFFF"
+)
+ESCAPABLE = "~.\\-!$&'()*+,;=/?#@%"
+
+# The local names that can be written, escaping some of their characters.
+LOCAL_NAME = re.compile(
+    f"(?:[{PN_CHARS_U}:0-9{ESCAPABLE}]"
+    f"[{PN_CHARS_U}:0-9\u00B7\u0300-\u036F\u203F-\u2040{ESCAPABLE}]*)?"
+)
+
+
 def escape_prefix_local(prefix):
     prefix, colon, local = prefix.partition(":")
-    for esc_char in "~.-!$&'()*+,;=:/?#@%_":
-        local = local.replace(esc_char, "\\" + esc_char)
+    local = re.sub(f"[{ESCAPABLE}]", r"\\\g<0>", local)
     return "".join((prefix, colon, local))
 
 
@@ -75,8 +89,11 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
                 name = f"<{str(name.replace(base, ''))}>"
         if name == node:
             name = f"<{str(name)}>"
-        else:
-            escape_prefix_local(name)
+        elif not name.startswith("<"):
+            if LOCAL_NAME.fullmatch(name.partition(":")[2]):
+                name = escape_prefix_local(name)
+            else:
+                name = f"<{str(node)}>"
     elif node.interfaceName == "BlankNode":
         if node in name_map:
             name = name_map[node]
-- 
2.43.0


From 0b6a9d565dc0f4b83c33d32cab18e200185bb620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 25/60] fix: abbreviate only the namespace an IRI starts with

---
 src/pymantic/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index f9a29a5..b06ec83 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -106,10 +106,11 @@ def to_curie(uri, namespaces, seperator=":", explicit=False):
             matches.append((prefix, namespace))
     if len(matches) > 0:
         prefix, namespace = sorted(matches, key=lambda pair: -len(pair[1]))[0]
+        curie = prefix + seperator + uri[len(namespace) :]
         if explicit:
-            return f"[{uri.replace(namespace, prefix + seperator)}]"
+            return f"[{curie}]"
         else:
-            return uri.replace(namespace, prefix + seperator)
+            return curie
     return uri
 
 
-- 
2.43.0


From 90affb6ccfae6e1f65bcd0d602919cf2b457a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:52 +0000
Subject: [PATCH 26/60] fix: write relative IRIs in Turtle only where they
 resolve to the node

---
 src/pymantic/serializers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index aeff8a4..bfe599e 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -80,16 +80,19 @@ def turtle_string_escape(string):
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
+    from pymantic.util import smart_urljoin
+
     if node.interfaceName == "NamedNode":
         name = profile.prefixes.shrink(node)
-        if base and name.startswith(base):
-            if base.endswith("#"):
-                name = f"<{str(name.replace(base, '#'))}>"
-            else:
-                name = f"<{str(name.replace(base, ''))}>"
         if name == node:
+            if base and node.startswith(base):
+                relative = node[len(base) :]
+                if base.endswith("#"):
+                    relative = "#" + relative
+                if smart_urljoin(base, relative) == node:
+                    name = relative
             name = f"<{str(name)}>"
-        elif not name.startswith("<"):
+        else:
             if LOCAL_NAME.fullmatch(name.partition(":")[2]):
                 name = escape_prefix_local(name)
             else:
-- 
2.43.0


From 6f631d38e6933acb28666ab1e485907662391c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:56 +0000
Subject: [PATCH 27/60] fix: mark datatypes with ^^ in Turtle documents

---
 src/pymantic/serializers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index bfe599e..ed69339 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -78,8 +78,11 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
-def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
-    """Turn a node in an RDF graph into its turtle representation."""
+def turtle_repr(
+    node, profile, name_map, bnode_name_maker, base=None, datatype_mark="^"
+):
+    """Turn a node in an RDF graph into its turtle representation. In a
+    document the datatype_mark has to be ^^."""
     from pymantic.util import smart_urljoin
 
     if node.interfaceName == "NamedNode":
@@ -123,7 +126,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         else:
             # Unrecognized data-type.
             name = turtle_string_escape(node.value)
-            name += "^" + turtle_repr(node.datatype, profile, None, None)
+            name += datatype_mark + turtle_repr(node.datatype, profile, None, None)
     return name
 
 
@@ -153,7 +156,7 @@ def serialize_turtle(
     bnode_name_maker = bnode_name_generator()
 
     def name_maker(n):
-        return turtle_repr(n, profile, name_map, bnode_name_maker, base)
+        return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
     from pymantic.rdf import List
 
-- 
2.43.0


From bd92d73980c94ce6540f2f61f7d89ec7fbb41411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 28/60] fix: write native Turtle literals only for lexical
 forms that denote them

---
 src/pymantic/serializers.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index ed69339..f5a48df 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -65,6 +65,17 @@ LOCAL_NAME = re.compile(
 )
 
 
+XSD = "http://www.w3.org/2001/XMLSchema#"
+
+# The lexical forms that denote a literal of a datatype without further ado.
+NATIVE_FORMS = {
+    XSD + "integer": re.compile(r"[+-]?[0-9]+"),
+    XSD + "decimal": re.compile(r"[+-]?[0-9]*\.[0-9]+"),
+    XSD + "double": re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)[eE][+-]?[0-9]+"),
+    XSD + "boolean": re.compile(r"true|false"),
+}
+
+
 def escape_prefix_local(prefix):
     prefix, colon, local = prefix.partition(":")
     local = re.sub(f"[{ESCAPABLE}]", r"\\\g<0>", local)
@@ -107,7 +118,7 @@ def turtle_repr(
             name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
-        if node.datatype == profile.resolve("xsd:string"):
+        if node.datatype == XSD + "string":
             # Simple string.
             name = turtle_string_escape(node.value)
         elif node.datatype is None:
@@ -115,16 +126,12 @@ def turtle_repr(
             name = turtle_string_escape(node.value)
             if node.language:
                 name += "@" + node.language
-        elif node.datatype == profile.resolve("xsd:integer"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:decimal"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:double"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:boolean"):
+        elif node.datatype in NATIVE_FORMS and NATIVE_FORMS[node.datatype].fullmatch(
+            node.value
+        ):
             name = node.value
         else:
-            # Unrecognized data-type.
+            # Unrecognized data-type or lexical form.
             name = turtle_string_escape(node.value)
             name += datatype_mark + turtle_repr(node.datatype, profile, None, None)
     return name
-- 
2.43.0


From c60183a6970af8b64c39155e81eaece71ad2c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 29/60] fix: fold only whole, unshared lists in Turtle output

---
 src/pymantic/serializers.py | 63 ++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index f5a48df..91423a0 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -65,6 +65,7 @@ LOCAL_NAME = re.compile(
 )
 
 
+RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
 XSD = "http://www.w3.org/2001/XMLSchema#"
 
 # The lexical forms that denote a literal of a datatype without further ado.
@@ -142,6 +143,45 @@ def turtle_sorted_names(nodes, name_maker):
     return sorted((name_maker(node), node) for node in nodes)
 
 
+def collection_cells(graph):
+    """The list nodes that are written as part of a collection, each with its
+    member and the rest of the list: unshared blank nodes that only serve to
+    make up a list written where it is referred to."""
+    cells = {}
+    for subject in graph.subjects():
+        triples = {t.predicate: t.object for t in graph.match(subject=subject)}
+        if (
+            subject.interfaceName == "BlankNode"
+            and triples.keys() == {RDF + "first", RDF + "rest"}
+            and len(list(graph.match(subject=subject))) == 2
+            and len(list(graph.match(object=subject))) == 1
+        ):
+            cells[subject] = (triples[RDF + "first"], triples[RDF + "rest"])
+
+    heads = {}  # Of the lists that end properly, by any of their cells.
+    owners = {}  # What refers to a list, by its head.
+    for cell, (_, rest) in cells.items():
+        if rest == RDF + "nil":
+            members = [cell]
+            owner = next(graph.match(object=cell)).subject
+            while owner in cells and cells[owner][1] == members[-1]:
+                members.append(owner)
+                owner = next(graph.match(object=owner)).subject
+            heads.update((member, members[-1]) for member in members)
+            owners[members[-1]] = owner
+
+    def is_written(head):
+        """Is the list, in the end, referred to from outside any list?"""
+        seen = set()
+        while head is not None and head not in seen:
+            seen.add(head)
+            head = heads.get(owners[head])
+        return head is None
+
+    written = set(head for head in owners if is_written(head))
+    return {cell: cells[cell] for cell in heads if heads[cell] in written}
+
+
 def serialize_turtle(
     graph, f, base=None, profile=None, bnode_name_generator=default_bnode_name_generator
 ):
@@ -165,9 +205,18 @@ def serialize_turtle(
     def name_maker(n):
         return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
-    from pymantic.rdf import List
+    collections = collection_cells(graph)
+
+    def object_name(n):
+        if n not in collections:
+            return name_maker(n)
+        members = []
+        while n in collections:
+            first, n = collections[n]
+            members.append(object_name(first))
+        return "(" + " ".join(members) + ")"
 
-    subjects = [subj for subj in graph.subjects() if not List.is_list(subj, graph)]
+    subjects = [subj for subj in graph.subjects() if subj not in collections]
 
     for subject_name, subject in turtle_sorted_names(subjects, name_maker):
         subj_indent_size = len(subject_name) + 1
@@ -184,14 +233,6 @@ def serialize_turtle(
             ):
                 if j != 0:
                     f.write(",\n" + " " * pred_indent_size)
-                if List.is_list(triple.object, graph):
-                    f.write("(")
-                    for k, o in enumerate(List(graph, triple.object)):
-                        if k != 0:
-                            f.write(" ")
-                        f.write(name_maker(o))
-                    f.write(")")
-                else:
-                    f.write(name_maker(triple.object))
+                f.write(object_name(triple.object))
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
-- 
2.43.0


From e51536c315f7948efc674be4c46082f9a3a6f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 30/60] fix: declare the rdf prefix in Turtle output that uses
 it

---
 src/pymantic/serializers.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 91423a0..13a6d0d 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+from io import StringIO
 import re
 
 
@@ -195,14 +196,14 @@ def serialize_turtle(
         from pymantic.primitives import Profile
 
         profile = Profile()
-    for prefix, iri in profile.prefixes.items():
-        if prefix != "rdf":
-            f.write("@prefix " + prefix + ": <" + iri + "> .\n")
 
     name_map = OrderedDict()
     bnode_name_maker = bnode_name_generator()
 
+    named = set()
+
     def name_maker(n):
+        named.add(n.datatype if n.interfaceName == "Literal" else n)
         return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
     collections = collection_cells(graph)
@@ -216,6 +217,7 @@ def serialize_turtle(
             members.append(object_name(first))
         return "(" + " ".join(members) + ")"
 
+    document, f = f, StringIO()
     subjects = [subj for subj in graph.subjects() if subj not in collections]
 
     for subject_name, subject in turtle_sorted_names(subjects, name_maker):
@@ -236,3 +238,13 @@ def serialize_turtle(
                 f.write(object_name(triple.object))
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
+
+    uses_rdf = any(
+        profile.prefixes.shrink(node).startswith("rdf:")
+        for node in named
+        if isinstance(node, str)
+    )
+    for prefix, iri in profile.prefixes.items():
+        if prefix != "rdf" or uses_rdf:
+            document.write("@prefix " + prefix + ": <" + iri + "> .\n")
+    document.write(f.getvalue())
-- 
2.43.0


From e461c5bd6100be55d99a1ed31945961a1df8b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:00 +0000
Subject: [PATCH 31/60] fix: resolve a CURIE with an empty reference to its
 namespace

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index b06ec83..a1c53ee 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -72,7 +72,7 @@ def parse_curie(curie, prefixes):
     if not definitely_curie:
         if prefix in uri_schemes.schemes:
             return NamedNode(curie)
-    if not reference and "" in prefixes:
+    if not sep and "" in prefixes:
         reference = prefix
         return Prefix(prefixes[""])(reference)
     if prefix in prefixes:
-- 
2.43.0


From cab2892218efab7158ffc5e67c1991d6530dca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:58 +0000
Subject: [PATCH 32/60] fix: create resources on blank nodes as such

---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 5c0a48d..d0ff7d3 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -129,7 +129,7 @@ class Resource(metaclass=MetaResource):
         # graph.bind(prefix, Prefix)
         if subject is None:
             subject = BlankNode()
-        if not isinstance(subject, NamedNode):
+        if not isinstance(subject, NamedNode) and not isinstance(subject, BlankNode):
             subject = NamedNode(subject)
         for rdf_class in cls.rdf_classes:
             graph.add(Triple(subject, cls.resolve("rdf:type"), rdf_class))
-- 
2.43.0


From 534c549f03a27de1d1f340e7b5054acf42faae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:01 +0000
Subject: [PATCH 33/60] fix: copy resources by adding triples

---
 src/pymantic/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index d0ff7d3..dc6d0f8 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -540,8 +540,8 @@ class Resource(metaclass=MetaResource):
             target_subject, BlankNode
         ):
             target_subject = NamedNode(target_subject)
-        for t in self.graph.match(self.subject, None, None):
-            self.graph.add((target_subject, t.predicate, t.object))
+        for t in list(self.graph.match(self.subject, None, None)):
+            self.graph.add(Triple(target_subject, t.predicate, t.object))
         return self.classify(self.graph, target_subject)
 
     def as_(self, target_class):
-- 
2.43.0


From c14715f4d0d20f9e87077e094ee7c681f799ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:05 +0000
Subject: [PATCH 34/60] fix: enumerate only the instances that have every type

---
 src/pymantic/rdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index dc6d0f8..ca25337 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -362,10 +362,10 @@ class Resource(metaclass=MetaResource):
     @classmethod
     def in_graph(cls, graph):
         """Iterate through all instances of this Resource in the graph."""
-        subjects = set()
+        subjects = None
         for rdf_class in cls.rdf_classes:
-            if not subjects:
-                subjects.update(
+            if subjects is None:
+                subjects = set(
                     [
                         t.subject
                         for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
@@ -378,7 +378,7 @@ class Resource(metaclass=MetaResource):
                         for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
                     ]
                 )
-        return set(cls(graph, subject) for subject in subjects)
+        return set(cls(graph, subject) for subject in subjects or ())
 
     def __repr__(self):
         return "<%r: %s>" % (type(self), self.subject)
-- 
2.43.0


From ebca03be2d723db65d6688f6474eb6514bd2797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 35/60] fix: iterate over list members of any language

---
 src/pymantic/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index ca25337..4b9d21c 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -560,7 +560,8 @@ class List(Resource):
         """Iterating over lists works differently from normal Resources."""
         current = self
         while current.subject != self.resolve("rdf:nil"):
-            yield current["rdf:first"]
+            first = current.objects(self.resolve("rdf:first"))
+            yield self.classify(self.graph, util.one_or_none(first))
             current = current["rdf:rest"]
             if current.subject != self.resolve("rdf:nil"):
                 current = current.as_(type(self))
-- 
2.43.0


From edef611255b0fe0ceb9446780f82e652035282fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:12 +0000
Subject: [PATCH 36/60] fix: classify by the current registrations, related
 classes included

---
 src/pymantic/rdf.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 4b9d21c..682198b 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -406,26 +406,36 @@ class Resource(metaclass=MetaResource):
         types = frozenset(
             [t.object for t in graph.match(obj, cls.resolve("rdf:type"), None)]
         )
-        python_classes = tuple(
+        registered = [
             cls._meta_resource._classes[t]
-            for t in types
-            if t in cls._meta_resource._classes
+            for t in sorted(t for t in types if t in cls._meta_resource._classes)
+        ]
+        # Classes that others derive from are covered by those.
+        python_classes = tuple(
+            python_class
+            for i, python_class in enumerate(registered)
+            if python_class not in registered[:i]
+            and not any(
+                other is not python_class and issubclass(other, python_class)
+                for other in registered
+            )
         )
         if len(python_classes) == 0:
             return Resource(graph, obj)
         elif len(python_classes) == 1:
             return python_classes[0](graph, obj)
         else:
-            if types not in cls._meta_resource._classes:
+            key = (types, python_classes)
+            if key not in cls._meta_resource._classes:
                 the_class = cls._meta_resource.__new__(
                     cls._meta_resource,
                     "".join(python_class.__name__ for python_class in python_classes),
                     python_classes,
                     {"_autocreate": True},
                 )
-                cls._meta_resource._classes[types] = the_class
+                cls._meta_resource._classes[key] = the_class
                 the_class.rdf_classes = frozenset(types)
-            return cls._meta_resource._classes[types](graph, obj)
+            return cls._meta_resource._classes[key](graph, obj)
 
     def _interpret_key(self, key):
         """Break up a key into a predicate name and optional language or
-- 
2.43.0


From bbc6080198b229491fd36dc0b214b42b15abba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:46 +0000
Subject: [PATCH 37/60] fix: accept resource references whatever the language
 or datatype filter

---
 src/pymantic/rdf.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 682198b..888cc54 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -614,20 +614,23 @@ def check_objects(graph, value, lang, datatype, rdf_class):
     if isinstance(value, frozenset) or (
         isinstance(value, tuple) and not isinstance(value, Literal)
     ):
-        for v in value:
-            if (
-                (
-                    lang
-                    and (not hasattr(v, "language") or not lang_match(v.language, lang))
-                )
-                or (datatype and v.datatype != datatype)
-                or (rdf_class and not isinstance(v, rdf_class))
-            ):
-                return False
+        return all(check_object(v, lang, datatype, rdf_class) for v in value)
+    else:
+        return check_object(value, lang, datatype, rdf_class)
+
+
+def check_object(value, lang, datatype, rdf_class):
+    """Determine that a value is appropriate for the specified explicit object
+    access key. References to resources suit any language or datatype."""
+    if rdf_class:
+        return isinstance(value, rdf_class)
+    elif isinstance(value, Resource):
         return True
+    elif lang:
+        return lang_match(value.language, lang)
+    elif datatype:
+        return value.datatype == datatype
+    elif lang == "" or datatype == "":
+        return value.language is None and value.datatype is None
     else:
-        return (
-            (lang and lang_match(value.language, lang))
-            or (datatype and value.datatype == datatype)
-            or (rdf_class and isinstance(value, rdf_class))
-        )
+        return True
-- 
2.43.0


From ffffd247443d1dec44f6cf29f80a1bb4d14fa4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 38/60] fix: assign to the plain literals or all objects of a
 predicate

---
 src/pymantic/rdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 888cc54..e7fe25d 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -541,6 +541,10 @@ class Resource(metaclass=MetaResource):
             )
         elif rdf_class:
             return self.objects_by_type(predicate, rdf_class)
+        elif lang == "" or datatype == "":
+            return self.bare_literals(predicate) + self.objects_by_type(predicate)
+        else:
+            return self.objects(predicate)
 
     def copy(self, target_subject):
         """Create copies of all triples with this resource as their subject
@@ -603,7 +607,7 @@ def objectify_value(graph, value, lang=None, datatype=None):
     elif isinstance(value, Literal) or isinstance(value, Resource):
         return value
     elif isinstance(value, str):
-        return Literal(value, language=lang, datatype=datatype)
+        return Literal(value, language=lang or None, datatype=datatype or None)
     else:
         return Literal(value)
 
-- 
2.43.0


From c82f21c769d4b8e8ec4cd1441a37d5751a850e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:54 +0000
Subject: [PATCH 39/60] fix: refuse sequences for scalars when assigning with a
 filter too

---
 src/pymantic/rdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index e7fe25d..f5e1f68 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -523,6 +523,8 @@ class Resource(metaclass=MetaResource):
         dictionary-style set with explicit type information."""
         if not check_objects(self.graph, value, lang, datatype, rdf_class):
             raise ValueError("Improper value provided.")
+        if isinstance(value, frozenset) and predicate in self.scalars:
+            raise ValueError("Cannot store sequences in scalars")
         if lang and predicate in self.scalars:
             return (
                 self.objects_by_lang(predicate, lang)
-- 
2.43.0


From 05575381b2854c1676ebd5aa4610a17e7b9521ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:57 +0000
Subject: [PATCH 40/60] fix: make the SKOS vocabulary importable

---
 src/pymantic/vocab/skos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/vocab/skos.py b/src/pymantic/vocab/skos.py
index 36c23a7..b34e2b4 100644
--- a/src/pymantic/vocab/skos.py
+++ b/src/pymantic/vocab/skos.py
@@ -5,9 +5,9 @@ NS_DICT = dict(skos=SKOS_NS)
 
 
 class SKOSResource(Resource):
-    namespaces = NS_DICT
+    prefixes = NS_DICT
 
-    scaler = ["skos:prefLabel"]
+    scalars = ["skos:prefLabel"]
 
 
 @register_class("skos:Concept")
-- 
2.43.0


From c9734e08f81862765a3150aea29cdcc4d48adcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:41 +0000
Subject: [PATCH 41/60] fix: decode RDF and XML responses from bytes

---
 src/pymantic/sparql.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 848625c..d8aaabd 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,7 +1,7 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import StringIO
+from io import BytesIO
 import json
 import logging
 from lxml import objectify
@@ -145,7 +145,7 @@ class _Select(_SelectOrUpdate):
 
         if format:
             graph = rdflib.ConjunctiveGraph()
-            graph.parse(StringIO(response.content), self.query_url, format=format)
+            graph.parse(BytesIO(response.content), self.server.query_url, format=format)
             return graph
         elif response.headers["content-type"].startswith(
             "application/sparql-results+json"
@@ -154,7 +154,7 @@ class _Select(_SelectOrUpdate):
         elif response.headers["content-type"].startswith(
             "application/sparql-results+xml"
         ):
-            return objectify.parse(StringIO(response.content))
+            return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
                 "Got content of type: %s" % response.headers["content-type"]
@@ -255,13 +255,13 @@ class UpdateableGraphStore(SPARQLServer):
             )
         graph = rdflib.ConjunctiveGraph()
         if response.headers["content-type"].startswith("text/plain"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="nt")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
         elif response.headers["content-type"].startswith("application/rdf+xml"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="xml")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
         elif response.headers["content-type"].startswith("text/turtle"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="turtle")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
         elif response.headers["content-type"].startswith("text/rdf+n3"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="n3")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
         return graph
 
     def delete(self, graph_uri):
-- 
2.43.0


From f5f14fef90a376d17abad6355146308892e23b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 42/60] fix: report a query answered with 204 as success

---
 src/pymantic/sparql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index d8aaabd..1d36398 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -137,6 +137,8 @@ class _Select(_SelectOrUpdate):
 
     def execute(self):
         response = super(_Select, self).execute()
+        if response is True:
+            return response
         format = None
         if response.headers["content-type"].startswith("application/rdf+xml"):
             format = "xml"
-- 
2.43.0


From 4796608ad8c7f75e0975d81f1d97d0ca3e4245c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 43/60] fix: make graph store requests work

---
 src/pymantic/sparql.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 1d36398..da85ae4 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -8,8 +8,7 @@ from lxml import objectify
 import pytz
 import rdflib
 import requests
-import urllib
-from urllib.parse import urlparse
+from urllib.parse import quote_plus, urlencode, urljoin
 
 log = logging.getLogger(__name__)
 
@@ -240,15 +239,15 @@ class UpdateableGraphStore(SPARQLServer):
 
     def request_url(self, graph_uri):
         if self.param_style:
-            return self.dataset_url + "?" + urllib.urlencode({"graph": graph_uri})
+            return self.dataset_url + "?" + urlencode({"graph": graph_uri})
         else:
-            return urlparse.urljoin(self.dataset_url, urllib.quote_plus(graph_uri))
+            return urljoin(self.dataset_url, quote_plus(graph_uri))
 
     def get(self, graph_uri):
         response = self.s.get(
             self.request_url(graph_uri),
             headers={"Accept": ",".join(self.acceptable_graph_responses)},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code != 200:
             raise Exception(
@@ -268,7 +267,7 @@ class UpdateableGraphStore(SPARQLServer):
 
     def delete(self, graph_uri):
         response = self.s.delete(
-            self.request_url(graph_uri), **self.server.request_kwargs
+            self.request_url(graph_uri), **self.requests_kwargs
         )
         if response.status_code not in (200, 202):
             raise Exception(
@@ -282,7 +281,7 @@ class UpdateableGraphStore(SPARQLServer):
             self.request_url(graph_uri),
             data=graph_triples,
             headers={"content-type": "text/plain"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
@@ -297,7 +296,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.request_url(graph_uri),
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code not in (200, 201, 204):
                 raise Exception(
@@ -309,7 +308,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.dataset_url,
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code != 201:
                 raise Exception(
@@ -328,7 +327,7 @@ class PatchableGraphStore(UpdateableGraphStore):
             self.request_url(graph_uri),
             data=graph_xml,
             headers={"content-type": "application/vnd.talis.changeset+xml"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-- 
2.43.0


From 336e29db978a543a710547fb324b026df81e7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:51 +0000
Subject: [PATCH 44/60] fix: deleting a graph succeeds with 204 too

---
 src/pymantic/sparql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index da85ae4..b855c01 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -269,7 +269,7 @@ class UpdateableGraphStore(SPARQLServer):
         response = self.s.delete(
             self.request_url(graph_uri), **self.requests_kwargs
         )
-        if response.status_code not in (200, 202):
+        if response.status_code not in (200, 202, 204):
             raise Exception(
                 "Error from Graph Store (%s): %s"
                 % (response.status_code, response.content)
-- 
2.43.0


From 57168cddf5515e2a3ba20c798a350fd82df483cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 45/60] fix: raise on graph store responses of unknown content
 type

---
 src/pymantic/sparql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index b855c01..865ae4d 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -263,6 +263,10 @@ class UpdateableGraphStore(SPARQLServer):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
         elif response.headers["content-type"].startswith("text/rdf+n3"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
+        else:
+            raise UnknownSPARQLReturnTypeException(
+                "Got content of type: %s" % response.headers["content-type"]
+            )
         return graph
 
     def delete(self, graph_uri):
-- 
2.43.0


From 3e68738461e15842a47ed12dd75225c7c320959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 46/60] fix: give JSON-LD language literals no datatype

---
 src/pymantic/parsers/jsonld.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 29541fa..788f9b1 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -51,13 +51,14 @@ class PyLDLoader(BaseParser):
         elif triple_fragment["type"] == "blank node":
             return self._call_state.bnodes[triple_fragment["value"]]
         elif triple_fragment["type"] == "literal":
-            language = None
             if "language" in triple_fragment:
-                language = triple_fragment["language"]
+                return self.env.createLiteral(
+                    value=triple_fragment["value"],
+                    language=triple_fragment["language"],
+                )
             return self.env.createLiteral(
                 value=triple_fragment["value"],
                 datatype=self.env.createNamedNode(triple_fragment["datatype"]),
-                language=language,
             )
 
     def process_jobj(self, jobj, options=None):
-- 
2.43.0


From 5d76d4cfb506bf7a887760298f542a4c42e43a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:18 +0000
Subject: [PATCH 47/60] fix: load JSON-LD graphs named by blank nodes as such

---
 src/pymantic/parsers/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 788f9b1..97c0b58 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -66,11 +66,12 @@ class PyLDLoader(BaseParser):
 
         dataset = to_rdf(jobj, options=options)
         for graph_name, triples in dataset.items():
-            graph_iri = (
-                self.env.createNamedNode(graph_name)
-                if graph_name != "@default"
-                else None
-            )
+            if graph_name == "@default":
+                graph_iri = None
+            elif graph_name.startswith("_:"):
+                graph_iri = self._call_state.bnodes[graph_name]
+            else:
+                graph_iri = self.env.createNamedNode(graph_name)
             for triple in triples:
                 self.make_quad(
                     (
-- 
2.43.0


From 42100bb242be92407f6b61fbc3e10e798aa218e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:21 +0000
Subject: [PATCH 48/60] fix: load JSON-LD from text and files

---
 src/pymantic/parsers/jsonld.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 97c0b58..9ba1568 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -18,18 +18,20 @@ class PyLDLoader(BaseParser):
 
         def parse_file(self, f):
             jobj = json.load(f)
-            self.pyld_loader.process_jobj(jobj)
+            return self.pyld_loader.parse_json(jobj)
 
         def parse(self, string):
             jobj = json.loads(string)
-            self.pyld_loader.process_jobj(jobj)
+            return self.pyld_loader.parse_json(jobj)
 
     def parse_json(self, jobj, sink=None, options=None):
         if sink is None:
             sink = self._make_graph()
         self._prepare_parse(sink)
-        self.process_jobj(jobj, options)
-        self._cleanup_parse()
+        try:
+            self.process_jobj(jobj, options)
+        finally:
+            self._cleanup_parse()
 
         return sink
 
-- 
2.43.0


From 927ef00fe6625e90d3ce2f1175f3515bc806f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:11 +0000
Subject: [PATCH 49/60] fix: keep invalid UTF-8 percent-encoded when
 normalizing IRIs

---
 src/pymantic/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 6b833c2..e169d4c 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -61,10 +61,11 @@ def percent_decode(regmatch):
     encoded = b""
     for group in regmatch.group(0)[1:].split("%"):
         encoded += int(group, 16).to_bytes(1, "big")
-    uni = encoded.decode("utf-8")
+    uni = encoded.decode("utf-8", "surrogateescape")
     for res in reserved_in_iri:
         uni = uni.replace(res, "%%%02X" % ord(res))
-    return uni
+    # Keep bytes that are not valid UTF-8 encoded.
+    return re.sub("[\udc80-\udcff]", lambda m: "%%%02X" % (ord(m.group()) & 0xFF), uni)
 
 
 def normalize_iri(iri):
-- 
2.43.0


From 32bff87c2b6c3b8bd6fad15f407089bd577c9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 50/60] fix: normalize the case of percent-encoded control
 characters

---
 src/pymantic/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index e169d4c..bfbca1e 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -31,7 +31,7 @@ def one_or_none(values):
 
 
 percent_encoding_re = re.compile(
-    r"(?:%(?![01][0-9a-fA-F])(?!20)[a-fA-F0-9][a-fA-F0-9])+"
+    r"(?:%(?![01][0-9a-fA-F])(?!20)[a-fA-F0-9][a-fA-F0-9])+|%[01][0-9a-fA-F]"
 )
 
 reserved_in_iri = [
@@ -58,6 +58,8 @@ reserved_in_iri = [
 
 
 def percent_decode(regmatch):
+    if regmatch.group(0)[1] in "01":
+        return regmatch.group(0).upper()  # Control characters stay encoded.
     encoded = b""
     for group in regmatch.group(0)[1:].split("%"):
         encoded += int(group, 16).to_bytes(1, "big")
-- 
2.43.0


From eac48220e331fa9521267e76809fea4b29c72640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:33 +0000
Subject: [PATCH 51/60] fix: let names that are also URI schemes use the
 default namespace

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index a1c53ee..4471f7f 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -70,7 +70,7 @@ def parse_curie(curie, prefixes):
         definitely_curie = True
     prefix, sep, reference = curie.partition(":")
     if not definitely_curie:
-        if prefix in uri_schemes.schemes:
+        if sep and prefix in uri_schemes.schemes:
             return NamedNode(curie)
     if not sep and "" in prefixes:
         reference = prefix
-- 
2.43.0


From dcb3f54f8472abfc037361bca04502d9c24a0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:20 +0000
Subject: [PATCH 52/60] fix: a profile keeps the maps it is given when they are
 empty

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 4471f7f..04242b4 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -742,8 +742,8 @@ class Profile:
     Terms and IRIs."""
 
     def __init__(self, prefixes=None, terms=None):
-        self.prefixes = prefixes or PrefixMap()
-        self.terms = terms or TermMap()
+        self.prefixes = PrefixMap() if prefixes is None else prefixes
+        self.terms = TermMap() if terms is None else terms
         if "rdf" not in self.prefixes:
             self.prefixes["rdf"] = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
         if "xsd" not in self.prefixes:
-- 
2.43.0


From 2f6f2c095a751cffd300a677774938791503dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:23 +0000
Subject: [PATCH 53/60] fix: profiles created by an environment are not shared
 with it

---
 src/pymantic/primitives.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 04242b4..0e533ef 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -836,13 +836,16 @@ class RDFEnvironment(Profile):
         if empty:
             return Profile()
         else:
-            return Profile(self.prefixes, self.terms)
+            return Profile(self.createPrefixMap(), self.createTermMap())
 
     def createTermMap(self, empty=False):
         if empty:
             return TermMap()
         else:
-            return TermMap(self.terms)
+            terms = TermMap(self.terms)
+            if hasattr(self.terms, "default"):
+                terms.setDefault(self.terms.default)
+            return terms
 
     def createPrefixMap(self, empty=False):
         if empty:
-- 
2.43.0


From 3d4645626792ff757d86d66b0557b6fad203dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 54/60] fix: compare whole media types of SPARQL responses

Types were recognised by prefix and with the letter case of the server, so
a response labelled Text/Turtle was refused and one labelled with a longer,
unknown type was parsed; a missing header raised KeyError.
---
 src/pymantic/sparql.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 865ae4d..31f6e42 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -27,6 +27,11 @@ class UnknownSPARQLReturnTypeException(Exception):
     pass
 
 
+def media_type(response):
+    """The media type of a response, without parameters and in lower case."""
+    return response.headers.get("content-type", "").partition(";")[0].strip().lower()
+
+
 class _SelectOrUpdate:
 
     """A server that can run SPARQL queries."""
@@ -138,27 +143,24 @@ class _Select(_SelectOrUpdate):
         response = super(_Select, self).execute()
         if response is True:
             return response
+        content_type = media_type(response)
         format = None
-        if response.headers["content-type"].startswith("application/rdf+xml"):
+        if content_type == "application/rdf+xml":
             format = "xml"
-        elif response.headers["content-type"].startswith("text/turtle"):
+        elif content_type == "text/turtle":
             format = "turtle"
 
         if format:
             graph = rdflib.ConjunctiveGraph()
             graph.parse(BytesIO(response.content), self.server.query_url, format=format)
             return graph
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+json"
-        ):
+        elif content_type == "application/sparql-results+json":
             return json.loads(response.content.decode("utf-8"))
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+xml"
-        ):
+        elif content_type == "application/sparql-results+xml":
             return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
-                "Got content of type: %s" % response.headers["content-type"]
+                "Got content of type: %s" % response.headers.get("content-type")
             )
 
 
@@ -254,18 +256,19 @@ class UpdateableGraphStore(SPARQLServer):
                 "Error from Graph Store (%s): %s"
                 % (response.status_code, response.content)
             )
+        content_type = media_type(response)
         graph = rdflib.ConjunctiveGraph()
-        if response.headers["content-type"].startswith("text/plain"):
+        if content_type == "text/plain":
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
-        elif response.headers["content-type"].startswith("application/rdf+xml"):
+        elif content_type == "application/rdf+xml":
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
-        elif response.headers["content-type"].startswith("text/turtle"):
+        elif content_type == "text/turtle":
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
-        elif response.headers["content-type"].startswith("text/rdf+n3"):
+        elif content_type == "text/rdf+n3":
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
         else:
             raise UnknownSPARQLReturnTypeException(
-                "Got content of type: %s" % response.headers["content-type"]
+                "Got content of type: %s" % response.headers.get("content-type")
             )
         return graph
 
-- 
2.43.0


From c497cd0658b8307e5cd758e1ce76c1b84be97a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 55/60] fix: make str() of an IRI a plain string

NamedNode.__str__ returned the NamedNode itself. Pickling with protocol 0
or 1 asks str() for the plain value and recursed without end, for an IRI
and for every literal or statement holding one.
---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 0e533ef..fc8330d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -317,7 +317,7 @@ class NamedNode(str):
         return f"NamedNode({self.toNT()})"
 
     def __str__(self):
-        return self.value
+        return str.__str__(self)
 
     def toNT(self):
         return f"<{nt_escape(quote_normalized_iri(self.value))}>"
-- 
2.43.0


From 1929d678baebe90990813c500459df581b958c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 56/60] fix: read deeply nested Turtle without exhausting the
 stack

---
 src/pymantic/parsers/lark/turtle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 3f9e5f1..bd79760 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -12,8 +12,9 @@ parse turtle line by line. If a file-like object is provided, the entire file
 will be read into memory and parsed there.
 """
 
-from lark import Lark, Transformer, Tree
+from lark import Lark, Tree
 from lark.lexer import Token
+from lark.visitors import Transformer_NonRecursive
 import re
 
 from pymantic.parsers.base import BaseParser
@@ -134,7 +135,7 @@ def unpack_predicate_object_list(subject, pol):
             yield Triple(subject, predicate, object_)
 
 
-class TurtleTransformer(BaseParser, Transformer):
+class TurtleTransformer(BaseParser, Transformer_NonRecursive):
     def __init__(self, base_iri=""):
         super().__init__()
         self.base_iri = base_iri
@@ -208,11 +209,13 @@ class TurtleTransformer(BaseParser, Transformer):
 
     def blank_node_property_list(self, children):
         pl_root = self.make_blank_node()
-        for pl_item in unpack_predicate_object_list(pl_root, children[0]):
-            yield pl_item
-        yield pl_root
+        # Not a generator: those would be nested as deeply as the text.
+        return [*unpack_predicate_object_list(pl_root, children[0]), pl_root]
 
     def collection(self, children):
+        return list(self.iter_collection(children))
+
+    def iter_collection(self, children):
         prev_node = RDF_NIL
         for value in reversed(children):
             this_bn = self.make_blank_node()
-- 
2.43.0


From 8e659d411a599004155446696e765651586cf5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 57/60] fix: write deeply nested lists as Turtle without
 exhausting the stack

---
 src/pymantic/serializers.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 13a6d0d..471999f 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -209,13 +209,21 @@ def serialize_turtle(
     collections = collection_cells(graph)
 
     def object_name(n):
-        if n not in collections:
-            return name_maker(n)
-        members = []
-        while n in collections:
-            first, n = collections[n]
-            members.append(object_name(first))
-        return "(" + " ".join(members) + ")"
+        name = ""
+        todo = [(n, "")]  # Nodes to name, last one first, and what follows them.
+        while todo:
+            n, after = todo.pop()
+            if n not in collections:
+                name += name_maker(n) + after
+                continue
+            name += "("
+            members = []
+            while n in collections:
+                first, n = collections[n]
+                members.append((first, " "))
+            members[-1] = (members[-1][0], ")" + after)
+            todo.extend(reversed(members))
+        return name
 
     document, f = f, StringIO()
     subjects = [subj for subj in graph.subjects() if subj not in collections]
-- 
2.43.0


From 16885b96a15bf3123f456fe76d2760f89499bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 58/60] fix: parse calls made in the course of another keep
 their blank nodes apart

---
 src/pymantic/parsers/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/base.py b/src/pymantic/parsers/base.py
index 6c130fe..8c90bec 100644
--- a/src/pymantic/parsers/base.py
+++ b/src/pymantic/parsers/base.py
@@ -42,12 +42,15 @@ class BaseParser:
         return self.env.createQuad(subject, predicate, object, graph)
 
     def _prepare_parse(self, graph):
+        # A call may be made in the course of another one.
+        self._call_state.outer = dict(self._call_state.__dict__)
         self._call_state.bnodes = defaultdict(self.env.createBlankNode)
         self._call_state.graph = graph
 
     def _cleanup_parse(self):
-        del self._call_state.bnodes
-        del self._call_state.graph
+        outer = self._call_state.outer
+        self._call_state.__dict__.clear()
+        self._call_state.__dict__.update(outer)
 
     def _make_graph(self):
         return self.env.createGraph()
-- 
2.43.0


From 3378ce92f9dfe1a894712bfec7f4c4304b76305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:35 +0000
Subject: [PATCH 59/60] fix: graphs added to a dataset under a plain string are
 named by an IRI

---
 src/pymantic/primitives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index fc8330d..b7376e3 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -535,6 +535,8 @@ class Dataset:
     def add_graph(self, graph, named=None):
         name = named or graph.uri
         if name:
+            if not isinstance(name, (NamedNode, BlankNode)):
+                name = NamedNode(name)
             graph._uri = name
             self._graphs[graph.uri] = graph
         else:
-- 
2.43.0


From 495afa8076166f86fb5c065205b01911bc1f84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 60/60] fix: show resources whose label is not a literal

---
 src/pymantic/rdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index f5e1f68..5a232db 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -384,8 +384,9 @@ class Resource(metaclass=MetaResource):
         return "<%r: %s>" % (type(self), self.subject)
 
     def __str__(self):
-        if self["rdfs:label"]:
-            return self["rdfs:label"].value
+        label = self["rdfs:label"]
+        if isinstance(label, Literal):
+            return label.value
         else:
             return str(self.subject)
 
-- 
2.43.0

