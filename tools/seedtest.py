"""seedtest.py [--no-check] [ID...]: confirm planted bugs in scratch copies and run their property's quick check against them."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args = sys.argv[1:]
nocheck = "--no-check" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True, check=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=w + "/src")
        clean = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=w, env=env, capture_output=True, text=True)
        a = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, capture_output=True, text=True)
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stderr); continue
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=w, env=env, capture_output=True, text=True)
        tail = t.stdout.strip().splitlines()[-1]
        bad = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=w, env=env, capture_output=True, text=True)
        res = "demo clean=%d bug=%d | tests %s" % (clean.returncode, bad.returncode, tail)
        if clean.returncode or not bad.returncode:
            res += " !!BAD DEMO " + clean.stderr[-300:]
        if not nocheck and prop in man:
            e = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
            c = subprocess.run(man[prop]["quick_cmd"], shell=True, cwd=V, env=e, capture_output=True, text=True)
            caught = c.returncode == 1 and "VIOLATION property=%s " % prop in c.stdout
            res += " | %s %s" % (prop, "CAUGHT" if caught else "MISSED rc=%d %s" % (c.returncode, (c.stdout + c.stderr)[-300:] if c.returncode else ""))
        print(i, res, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
