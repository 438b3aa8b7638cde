"""Writes known_findings.json: no open findings; every fix: commit with the property that showed it."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"read deeply nested": "C09", "write deeply nested": "C12", "make str() of an IRI": "C27", "escape control characters in N-Triples": "C04", "stringify quads": "C05", "do not remove matches while": "C01", "drop index entries": "C02",
 "only None is a wildcard": "C02", "a graph made without a name": "C03", "matching or removing in an unknown graph": "C03", "iterating a dataset": "C03",
 "implement Dataset.remove_graph": "C03", "take every statement of a streamed line": "C06", "accept binary streams": "C06", "allow every digit": "C06",
 "keep punctuation out": "C06", "reject white space inside": "C06", "allow comments": "C06", "parse N-Quads into": "C05", "read Turtle from streams": "C09",
 "a carriage return ends": "C10", "unpack nested nodes": "C09", "reject IRIs ending": "C09", "resolve relative IRIs": "C11", "name blank nodes": "C12",
 "escape strings": "C12", "let names that are": "C19", "a profile keeps": "C28", "profiles created by": "C28", "escape local names": "C12", "abbreviate only": "C19", "write relative IRIs": "C12", "mark datatypes": "C12",
 "write native": "C12", "fold only whole": "C12", "declare the rdf prefix": "C12", "resolve a CURIE": "C19", "create resources on blank": "C16",
 "copy resources": "C16", "enumerate only": "C16", "iterate over list": "C13", "classify by": "C17", "accept resource references": "C15",
 "assign to the plain": "C15", "refuse sequences": "C15", "make the SKOS": "C18", "decode RDF and XML": "C23", "report a query answered": "C23",
 "make graph store requests": "C24", "deleting a graph": "C24", "raise on graph store": "C24", "compare whole media": "C23", "give JSON-LD language": "C26",
 "load JSON-LD graphs": "C26", "load JSON-LD from": "C26", "keep invalid UTF-8": "C21", "normalize the case": "C21", "parse calls made in the course": "C07", "graphs added to a dataset under a plain": "C05", "show resources whose label": "C29"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = [v for k, v in PROP.items() if s[5:].startswith(k)]
    assert len(p) == 1, (s, p)
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
json.dump({"known": [], "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(fixed))
