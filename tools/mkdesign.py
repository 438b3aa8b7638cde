"""Writes DESIGN.md from tools/design/*.md, known_findings.json and seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(os.path.join(V, n)).read()
k = json.loads(rd("known_findings.json"))
out = [rd("tools/design/1-method.md"), "\n## 4. Genuine defects found and repaired\n\n",
  "Each was first shown by the check named (failing input against the real code), then repaired by\n"
  "one `fix:` commit in `/repo`; `known_findings.json` records them, none is left unrepaired and\n"
  "none is suppressed: the checks report them again if they return (tried on the base tree).\n\n"
  "| property | commit | what failed |\n|---|---|---|\n"]
for f in k["fixed"]:
    if isinstance(f, str):
        w = f.split(None, 3); out.append("| %s | %s | %s |\n" % (w[1].split("=")[1], w[2], w[3]))
    else:
        out.append("| %s | %s | %s |\n" % (f["property"], f["commit"], f.get("what") or f.get("what_failed")))
missed = {l.split(":")[0].strip(): l.split(":", 1)[1].strip() for l in rd("tools/design/missed.txt").splitlines() if ":" in l}
out.append("\n## 5. Planted bugs\n\nAll of `/verif/seeded` was written from property texts and code alone; each passes the 377\n"
  "tests. Every one is caught by the quick check of its own property. *First missed* names what was\nstrengthened.\n\n"
  "| bug | property | needs | first missed? |\n|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " "), missed.get(n, "")))
out += ["\n", rd("tools/design/3-limits.md")]
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
