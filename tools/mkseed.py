"""mkseed.py SPEC.py ...: make seeded/<id>/ from a description (variables id, prop, file, edits=[(old,new)], needs, breaks, demo)."""
import difflib, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = subprocess.run(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for path in sys.argv[1:]:
    for block in open(path).read().split("\n#====\n"):
        d = {}
        exec(block, d)
        if "id" not in d or not isinstance(d["id"], str):
            continue
        files = d["files"] if "files" in d else {d["file"]: d["edits"]}
        patch = ""
        touched_own = False
        ok = True
        for fn, edits in files.items():
            old = open(os.path.join(R, fn)).read()
            new = old
            for a, b in edits:
                if new.count(a) != 1:
                    print(d["id"], fn, "edit matches", new.count(a), "times:", a[:60]); ok = False; break
                new = new.replace(a, b)
            if not ok: break
            blame = subprocess.run(["git", "-C", R, "blame", "-s", "-l", fn], capture_output=True, text=True).stdout.splitlines()
            sm = difflib.SequenceMatcher(None, old.splitlines(), new.splitlines(), autojunk=False)
            lines = [i for tag, i1, i2, j1, j2 in sm.get_opcodes() if tag != "equal" for i in range(i1, i2)]
            own = [i + 1 for i in lines if blame[i].lstrip("^")[:39] != BASE[:39]]
            if own or not lines:
                print(d["id"], "WARNING: touches lines of fix commits or only inserts", fn, own)
            patch += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + fn, "b/" + fn))
        if not ok: continue
        out = os.path.join(V, "seeded", d["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(d["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\n# Fails when the property is broken. Run with cwd = the repository.\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("wrote", d["id"])
