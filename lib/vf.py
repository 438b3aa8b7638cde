"""Common machinery of the checks: TLC runs, spec-behaviour replay, evidence, verdicts."""
import collections, hashlib, json, multiprocessing, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))


class MachineryError(Exception):
    pass


HUNG = "the code does not come back"


class Hang(BaseException):
    """The code under test did not come back in time."""


_DEADLINE = [None, 0]


def watchdog(seconds, each=100):
    """Raise Hang in this process if it is still busy after so many seconds, or with one call after each."""
    def ring(*_):
        raise Hang("no result in time")
    signal.signal(signal.SIGALRM, ring)
    _DEADLINE[:] = [time.time() + seconds, each]
    signal.alarm(seconds)


def blame(exc):
    """Is an unexpected exception due to the code under test: raised in its source, or by a check that was handed
    something of another shape than it can be? (Not those of the machinery: of this file, TLC, files, memory.)"""
    src = os.path.realpath(os.path.join(REPO, "src"))
    frames = traceback.extract_tb(exc.__traceback__)
    if any(os.path.realpath(f.filename).startswith(src + os.sep) for f in frames): return True
    return isinstance(exc, (LookupError, StopIteration, TypeError, AttributeError, ValueError, AssertionError, ArithmeticError)) \
        and not any(os.path.realpath(f.filename) == os.path.realpath(__file__) and f.name not in ("main", "_job", "outcome") for f in frames)


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.mismatches = []
        for line in out.splitlines():
            if line.startswith('<<"MISMATCH"'):
                self.mismatches.append(line)


def tlc(module, cfg=None, env=None, workers=8, timeout=800, args=(), heap="6g"):
    """Run TLC on spec/<module>.tla in a throw-away copy of the spec directory."""
    work = tempfile.mkdtemp(prefix="vf_tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return TLCResult(p.stdout, p.returncode, time.time() - t0)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + module)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_ok(res, what):
    """The specification itself must be consistent: anything else is an error of the machinery."""
    if res.rc != 0 or "Model checking completed. No error has been found" not in res.out:
        raise MachineryError("%s: TLC rc=%s\n%s" % (what, res.rc, res.out[-3000:]))
    return res


def explore(module, cfg=None, env=None, **kw):
    """Model-check module exhaustively and return (result, emitted JSON records)."""
    d = tempfile.mkdtemp(prefix="vf_out_")
    try:
        out = os.path.join(d, "out.nd")
        e = dict(env or {}); e["OUT"] = out
        res = tlc_ok(tlc(module, cfg, e, **kw), module)
        recs = []
        if os.path.exists(out):
            with open(out, encoding="utf-8") as f:
                for line in f:
                    recs.append(json.loads(json.loads(line)))
        recs.sort(key=lambda r: json.dumps(r, sort_keys=True))
        return res, recs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, traces, cfg=None, env=None, expect_states=None, **kw):
    """Check recorded traces (list of dicts with 'ev') with a trace specification.
    Returns (result, [(trace index, event index, clause)]). Long logs are checked piece by piece."""
    sizes, pieces, n = [len(json.dumps(t)) for t in traces], [[]], 0
    for t, z in zip(traces, sizes):
        if n + z > 40e6 and pieces[-1]: pieces.append([]); n = 0
        pieces[-1].append(t); n += z
    if len(pieces) > 1:
        first, bad, at = None, [], 0
        for p in pieces:
            res, b = validate(module, p, cfg, env, None, **kw)
            bad += [(t + at, i, c) for t, i, c in b]
            at += len(p)
            if first is None: first = res
            else: first.distinct += res.distinct; first.generated += res.generated
        return first, bad
    d = tempfile.mkdtemp(prefix="vf_tr_")
    try:
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        e = dict(env or {}); e["TRACE"] = path
        res = tlc_ok(tlc(module, cfg, e, **kw), module)
        want = sum(len(t["ev"]) + 1 for t in traces) if expect_states is None else expect_states
        if res.distinct != want:
            raise MachineryError("%s: %d states for %d expected\n%s" % (module, res.distinct, want, res.out[-2000:]))
        bad = []
        for line in res.mismatches:
            m = re.match(r'<<"MISMATCH", (\d+), (\d+), "([^"]*)"', line)
            if not m:
                raise MachineryError("unreadable verdict: " + line)
            bad.append((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3)))
        bad.sort()
        return res, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def evaluate(module, inputs, cfg=None, env=None, chunk=None, **kw):
    """Let a specification work out its answer for every input record: returns (result, [answer])."""
    d = tempfile.mkdtemp(prefix="vf_ev_")
    try:
        path, out = os.path.join(d, "trace.ndjson"), os.path.join(d, "out.nd")
        with open(path, "w") as f:
            for t in inputs:
                f.write(json.dumps(t) + "\n")
        e = dict(env or {}); e["TRACE"] = path; e["OUT"] = out
        res = tlc_ok(tlc(module, cfg, e, **kw), module)
        ans = [None] * len(inputs)
        for n in sorted(os.listdir(d)):
            if n.startswith("out.nd."):
                with open(os.path.join(d, n), encoding="utf-8") as f:
                    for line in f:
                        r = json.loads(json.loads(line))
                        ans[r["tid"] - 1] = r["ans"]
        if None in ans:
            raise MachineryError("%s: no answer for input %d\n%s" % (module, ans.index(None) + 1, res.out[-2000:]))
        return res, ans
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(x):
    return json.dumps(x, sort_keys=True)


def canon(x):
    """Canonical form of a JSON value whose arrays stand for sets."""
    return json.dumps(sorted(json.dumps(y) for y in x))


def edge_cover(transitions, init, rng, maxlen=60, state=canon):
    """Walks from init that together take every transition [(from, action, to)]."""
    out = collections.defaultdict(list)
    for n, (f, a, t) in enumerate(transitions):
        out[f].append(n)
    for v in out.values():
        rng.shuffle(v)
    todo = {f: list(v) for f, v in out.items()}
    left = sum(len(v) for v in todo.values())

    def path_to_work(cur):
        seen = {cur: None}
        q = collections.deque([cur])
        while q:
            s = q.popleft()
            if todo.get(s):
                path = []
                while seen[s] is not None:
                    n = seen[s]
                    path.append(n)
                    s = transitions[n][0]
                return path[::-1]
            for n in out.get(s, ()):
                t = transitions[n][2]
                if t not in seen:
                    seen[t] = n
                    q.append(t)
        return None

    while left:
        cur, walk = init, []
        while len(walk) < maxlen and left:
            if not todo.get(cur):
                p = path_to_work(cur)
                if p is None or (walk and len(walk) + len(p) > maxlen):
                    break
                walk.extend(p)
                if p:
                    cur = transitions[p[-1]][2]
            n = todo[cur].pop()
            left -= 1
            walk.append(n)
            cur = transitions[n][2]
        if not walk:
            raise MachineryError("unreachable transitions in the emitted graph")
        yield [transitions[n] for n in walk]


def short(x, width=2000, items=60):
    """x with its long texts and lists cut, so that evidence files stay small."""
    if isinstance(x, str): return x if len(x) <= width else x[:width] + "... (%d characters)" % len(x)
    if isinstance(x, dict): return {k: short(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        x = list(x)
        return [short(y) for y in x[:items]] + (["... (%d items)" % len(x)] if len(x) > items else [])
    return x


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples = []
        self.hung = False       # the code under test did not come back in a job
        self.assumptions = []
        self.violations = []
        self.known = []
        self.kf = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            self.kf = [k for k in json.load(open(p))["known"] if k["property"] == prop]

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def add(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def model(self, res):
        self.add("states", res.distinct)
        self.add("transitions", res.generated)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(short(x))

    def violation(self, what, detail):
        """Record a violation, unless it is one of the listed known findings."""
        sig = detail.get("signature") if isinstance(detail, dict) else None
        for k in self.kf:
            if sig is not None and sig == k.get("signature"):
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append((what, detail))

    def parallel(self, fn, items, procs=8):
        """Run fn(sub-check, item) for every item in forked processes and merge what they report."""
        items = list(items)
        jobs = [(fn, self.prop, self.level, self.rng.randrange(1 << 62), it) for it in items]
        global _JOBS
        _JOBS = jobs
        ctx = multiprocessing.get_context("fork")
        errors = []
        if self.hung: return
        with ctx.Pool(min(procs, max(1, len(jobs)))) as pool:
            for cov, viol, known, samples, err in pool.imap(_job, range(len(jobs)), chunksize=1):
                errors += [err] if err else []
                for k, v in cov.items():
                    self.add(k, v)
                self.violations += viol
                if any(v[0] == HUNG for v in viol):     # the others would wait as long
                    self.hung = True
                    break
                for k in known:
                    if k not in self.known:
                        self.known.append(k)
                for x in samples:
                    self.sample(x)
        if errors and not self.violations: raise MachineryError(errors[0])

    def enough(self):
        return self.hung or len(self.violations) >= 3

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov, samples=self.samples[:6]), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            path = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.violations[:20]], f, indent=1, default=repr)
            for w, d in self.violations[:5]:
                print("  %s: %s" % (w, json.dumps(d, default=repr)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("%s %s: %s in %.1fs %s" % (self.prop, self.tier, "VIOLATED" if self.violations else "held",
              time.time() - self.t0, json.dumps({k: v for k, v in self.cov.items()})))
        sys.stdout.flush()
        return 1 if self.violations else 0


_JOBS = []


def _job(i):
    fn, prop, level, seed, item = _JOBS[i]
    c = Check(prop, level)
    c.rng = random.Random(seed)
    err = None
    try:
        watchdog(c.pick(240, 3000), c.pick(100, 1500))
        fn(c, item)
    except (Exception, Hang) as e:
        if blame(e):
            c.violation(HUNG if isinstance(e, Hang) else "unexpected failure of the code", {"error": traceback.format_exc()[-3000:], "item": repr(item)[:300]})
        else:
            err = traceback.format_exc()
    finally:
        signal.alarm(0)
    # ship only plain data
    viol = json.loads(json.dumps(c.violations[:5], default=repr))
    return c.cov, [tuple(v) for v in viol], c.known, json.loads(json.dumps(c.samples, default=repr)), err


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        watchdog(c.pick(700, 7000), c.pick(100, 1500))
        fn(c)
        rc = c.finish()
    except MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        rc = 1 if c.violations and c.finish() else 2
    except (Exception, Hang) as e:
        traceback.print_exc()
        if blame(e):
            c.violation("unexpected failure of the code", {"error": traceback.format_exc()[-3000:]})
        rc = 1 if c.violations and c.finish() else 2
    finally:
        signal.alarm(0)
    sys.stdout.flush()
    sys.exit(rc)


def outcome(fn, *a, **k):
    """(value, exception name)."""
    timed = _DEADLINE[0] is not None and threading.current_thread() is threading.main_thread()
    try:
        if timed: signal.alarm(max(1, min(_DEADLINE[1], int(_DEADLINE[0] - time.time()))))
        return fn(*a, **k), None
    except Exception as e:
        return None, type(e).__name__
    finally:
        if timed: signal.alarm(max(1, int(_DEADLINE[0] - time.time())))
