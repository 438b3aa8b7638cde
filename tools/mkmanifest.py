"""Writes MANIFEST.json. Properties without an entry in CHECKS are listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
# property: (script, technique, level note)
CHECKS = {
 "C26": ("jsonld.py", "TLA+ JsonLd: expanded JSON-LD trees of the scenarios enumerated by TLC with the statements each stands for, loaded as varied documents and compared up to isomorphism; random documents answered by the specification",
         "exhaustive over the scenario trees (nodes, literals, lists, reverse, graphs), random documents beyond; expansion itself is PyLD's"),
 "C27": ("values.py", "TLA+ Terms: all values over small texts and all operations on them enumerated by TLC and replayed, each result compared with the whole universe; random histories of a pool of values and XSD forms of natives validated by TLC",
         "exhaustive for about 600 values (4000 thorough) x all operations; random texts, pools and natives beyond"),
 "C22": ("sparql.py", "TLA+ SparqlClient/Wire: all pairs of calls in every configuration enumerated by TLC and replayed on one client; every request sent, read character by character, validated by TLC; random histories beyond",
         "exhaustive for pairs of 47 calls x 8 configurations; random texts, IRIs and histories of two clients"),
 "C23": ("sparql.py", "TLA+ SparqlClient: all answers (status, content type, payload) enumerated by TLC, returned by a stand-in server and the outcomes validated by TLC",
         "16 statuses, 14 types, 7 kinds of payloads; redirects are not followed up; rdflib and lxml read the payloads"),
 "C24": ("sparql.py", "TLA+ SparqlClient/Wire/NTriples: all pairs of calls and all answers enumerated by TLC and replayed; requests validated by TLC, N-Triples bodies read by the NTriples specification",
         "exhaustive for pairs of calls x 8 configurations, random graphs and IRIs; dataset URLs end in a slash"),
 "C25": ("sparql.py", "TLA+ Changeset: all pairs of graphs over 4 statements x exclusions enumerated by TLC and replayed; change set graphs validated by TLC",
         "exhaustive for 4 statements (5 thorough), random rdflib graphs beyond"),
 "C19": ("maps.py", "TLA+ Curie: all names over a piece alphabet against all prefix maps enumerated by TLC and replayed; random maps and names answered by the specification",
         "exhaustive over the pieces of the scenarios, random beyond; names whose prefix is a URI scheme left open without brackets"),
 "C20": ("maps.py", "TLA+ Maps/TraceMaps: every transition of prefix map, term map and profile replayed in covering walks; random histories validated by TLC",
         "all histories over 2-3 names and values; random histories beyond"),
 "C21": ("maps.py", "TLA+ IriNorm: all IRIs of a piece alphabet normalized by TLC and compared; random IRIs answered by the specification; idempotence model-checked",
         "exhaustive over the piece alphabets, random IRIs beyond"),
 "C28": ("maps.py", "TLA+ Environment: histories of creating from and changing an environment validated by TLC against the state each object must have",
         "random histories over all factories"),
 "C12": ("turtleout.py", "TLA+ TurtleDoc (Lex + Turtle + RFC3986) reads the serializer's output in TLC: every graph of list cells and random graphs with random prefixes and bases must come back isomorphic",
         "exhaustive over small list graphs, random graphs beyond; plain literals may come back as xsd:string"),
 "C13": ("lists.py", "TLA+ RdfList: every graph of up to 3 list cells enumerated by TLC and iterated from each cell; ListEdit: every edit of small lists enumerated and replayed with iteration after it, histories of edits of two graphs validated; long iterations validated by TLC member by member",
         "exhaustive for 3 cells over 6 kinds of members, cells and nil (4 in the thorough run); random lists of up to 1500 members"),
 "C14": ("resources.py", "TLA+ ResourceKeys: TLC evaluates every key on contents of a predicate, replayed as read, test and delete; random histories validated by TLC",
         "all contents of up to 2 of 12 objects and 1200 larger ones (all 4096 in the thorough run) x 13 keys x scalar/language"),
 "C15": ("resources.py", "TLA+ ResourceKeys: TLC evaluates every key with every value on contents of a predicate, replayed as assignments; random histories validated by TLC",
         "13 keys x about 40 values x 350 contents (4096 thorough); random histories beyond"),
 "C16": ("resources.py", "TLA+ ResourceKeys/TraceResource: recorded histories of new, erase, copy, is_a, in_graph, object_of validated by TLC",
         "320 random histories of 25 calls (2400 thorough)"),
 "C17": ("classes.py", "TLA+ Classify (registry, types, cache of combined classes): all transitions enumerated by TLC and replayed in walks that cover each; random hierarchies and histories validated by TLC",
         "exhaustive for 3 types and 4 classes (5 thorough), random beyond; hierarchies without consistent MRO left open"),
 "C18": ("classes.py", "TLA+ ClassDefs: all histories of 3 definitions enumerated by TLC and replayed; random hierarchies validated by TLC",
         "exhaustive for 3 definitions over 2 prefixes; which of two disagreeing bases wins is left open"),
 "C09": ("turtle.py", "TLA+ Turtle pushdown machine over tokens: all token sequences of the scenarios enumerated by TLC and replayed into the parser; random documents, valid and mutated, judged by the specification",
         "exhaustive over the scenario words, random documents with up to about 100 triples beyond"),
 "C10": ("turtle.py", "TLA+ TurtleLex (character level) composed with the Turtle machine: all character scenarios enumerated by TLC and replayed; random documents judged by the specification; TLC-checked write/read round trip of the terminals",
         "exhaustive over the scenario words (150 000 documents), random beyond"),
 "C11": ("turtle.py", "TLA+ RFC3986 composed with the Turtle machine: all references of a small alphabet against 21 bases replayed; random directive histories; the specification itself checked against the RFC's examples and an independent reading",
         "references up to 4 pieces exhaustively, random beyond; absolute references with dot segments left open"),
 "C04": ("ntriples.py", "TLA+ NTriples character automaton: serializer output read by the specification in TLC and compared up to isomorphism; TLC-checked writer/reader round trip",
         "random graphs plus a sweep of code points (all of Unicode in the thorough run)"),
 "C05": ("ntriples.py", "TLA+ NTriples automaton over N-Quads output, as C04", "random datasets plus the code point sweep"),
 "C06": ("ntriples.py", "TLA+ NTriples: all documents of token and character scenarios enumerated by TLC and replayed in five input modes; mutated random documents judged by the specification",
         "exhaustive over the scenario words, random beyond"),
 "C07": ("calls.py", "TLA+ ParserCalls: all interleavings enumerated by TLC and replayed with gated streams; fine-grained thread schedules and sequences validated by TLC",
         "all line-level schedules of 2-3 calls; random schedules at source-line granularity"),
 "C08": ("calls.py", "TLA+ ParserCalls: recorded sequences of good and bad documents validated by TLC", "random sequences of 1-4 calls, all parsers"),
 "C01": ("graphs.py", "TLA+ GraphStore: exhaustive TLC, every transition replayed into Graph; recorded histories validated by TLC",
         "exhaustive for 8 triples over 2x2x2 terms (all 256 states, all transitions, 5 term worlds); random histories over 22 terms"),
 "C02": ("graphs.py", "TLA+ GraphStore (index-driven match = set match): exhaustive TLC, replay of every transition with all patterns; trace validation",
         "as C01, every pattern and listing compared after each step"),
 "C29": ("identity.py", "TLA+ Identity: all tables of resources, IRIs, strings and nodes and all calls on them enumerated by TLC and replayed; recorded comparisons, sets and labels validated by TLC (with ResourceKeys for the label)",
         "exhaustive for 11 things under 5 names x 2 values; random names, classes, graphs and labels beyond"),
 "C31": ("system.py", "TLA+ System (heap of graphs, datasets sharing them, profiles, documents): all histories over small programs enumerated by TLC with the frame property checked, every transition carried out on real objects and all of them observed; random programs validated by TLC",
         "exhaustive for 2 statements, 3 graphs, 1 dataset of 2 names; for 1 statement, 3 graphs, 2 datasets; and for one graph of 8 statements referring to each other; 400 random programs of up to 50 calls (3200 thorough)"),
 "C30": ("formats.py", "TLA+ Formats (NTriples beside TurtleDoc): inclusion of N-Triples in N-Quads and Turtle model-checked over the document scenarios, each document replayed into the three parsers; random documents and chains of conversions read step by step by the specification",
         "exhaustive over the scenario words, random documents and chains of up to 5 conversions beyond"),
 "C03": ("dataset.py", "TLA+ DatasetStore: exhaustive TLC, every transition replayed into Dataset; recorded histories validated by TLC",
         "exhaustive for 6 quads in 3 graphs incl. graph-level calls; random histories beyond"),
}
TODO = "check under construction"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s, t, n = CHECKS[i]
        cmd = "%s checks/%s %s" % (PY, s, i)
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "technique": t, "level": "model_checking",
                       "level_note": n + ". Assumes TLC and the harness projection (lib/) are right; the model bounds are those stated."})
    else:
        na.append({"property": i, "reason": TODO})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public API. Only fix: commits were made there (known_findings.json lists them)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
