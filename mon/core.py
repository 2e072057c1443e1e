"""The runner: generates cases, executes the real code under monitors in worker
processes, and turns what the monitors observed into a verdict and evidence."""
import collections
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SCAKS_REPO", "/repo")
STUB = os.path.join(HERE, "kmcstub")
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
NWORKERS = 6

PROPS = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "props"))
               if f.endswith(".py") and f != "__init__.py")


def module_for(pid):
    for name in PROPS:
        if name.split("_")[0] == pid.lower():
            return importlib.import_module("mon.props." + name)
    raise SystemExit("unknown property {}".format(pid))


class CaseTimeout(BaseException):
    """Raised by the alarm in a worker; not an Exception so that the code under
    test does not swallow it."""


class Skip(Exception):
    """The case could not be decided (counted, never a verdict)."""


class Mon(object):
    """What the monitors of one case observed."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.counters = collections.Counter()
        self.keys = set()
        self.sample = None
        self.violations = []
        self.known = []
        self.skipped = None

    # -- observations -------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, key):
        """Register one distinct non-trivial thing that was decided."""
        self.keys.add(key if isinstance(key, str) else json.dumps(key, sort_keys=True, default=str))

    def show(self, obj):
        if self.sample is None:
            self.sample = obj

    # -- verdicts -----------------------------------------------------------
    def violation(self, kind, **detail):
        self.violations.append({"kind": kind, "detail": {k: _short(v) for k, v in detail.items()}})

    def check(self, ok, kind, **detail):
        self.counters["assertions"] += 1
        if not ok:
            self.violation(kind, **detail)
        return bool(ok)

    def equal(self, got, want, kind, **detail):
        return self.check(got == want, kind, got=got, want=want, **detail)

    def close(self, got, want, kind, rtol=1e-9, atol=0.0, scale=None, **detail):
        """|got-want| <= atol + rtol*scale, scale being |want| by default."""
        self.counters["assertions"] += 1
        try:
            s = abs(want) if scale is None else abs(scale)
            ok = abs(got - want) <= atol + rtol*s
        except TypeError as e:
            ok = False
            detail["error"] = str(e)
        if not ok:
            self.violation(kind, got=got, want=want, **detail)
        return bool(ok)

    def known_finding(self, key, **detail):
        """A violation whose mechanism is `key`: suppressed only if it is listed."""
        self.known.append({"kind": key, "detail": {k: _short(v) for k, v in detail.items()}})

    def raises(self, fn, excs, kind, **detail):
        self.counters["assertions"] += 1
        try:
            r = fn()
        except excs:
            return True
        except Exception as e:
            self.violation(kind, got="{}: {}".format(type(e).__name__, e), want=str(excs), **detail)
            return False
        self.violation(kind, got="no error, returned {}".format(_short(r)), want=str(excs), **detail)
        return False


def _short(v):
    s = v if isinstance(v, (int, float, bool, str)) or v is None else str(v)
    if isinstance(s, str) and len(s) > 600:
        s = s[:600] + "..."
    return s


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def known_findings(pid):
    """{key: description} of the findings listed for a property."""
    found = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    words = line.split(None, 3)
                    if words[1] == "property=" + pid and words[2].startswith("key="):
                        found[words[2][4:]] = words[3]
    return found


# ---------------------------------------------------------------------------
# worker side
# ---------------------------------------------------------------------------
def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, tier, scratch):
    """Execute one case in its own scratch directory."""
    mon = Mon(tier)
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    timeout = getattr(mod, "CASE_TIMEOUT", 60)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        mod.run(case, mon)
    except CaseTimeout:
        mon.skipped = "timeout"
    except Skip as e:
        mon.skipped = str(e) or "skipped"
    except Exception as e:
        text = traceback.format_exc()
        if (isinstance(e, TypeError) and "in LU_decomp" in text) or (type(e).__name__ == "BracketError" and "in golden" in text):
            # the integration of a stiff mechanism ran away to values that are
            # not numbers: a limit of the numerical library
            mon.skipped = "not a number"
        elif getattr(mod, "EXCEPTION_IS_VIOLATION", True):
            tb = traceback.format_exc().splitlines()
            mon.violation("unexpected {}".format(type(e).__name__), error=str(e),
                          traceback="\n".join(tb[-9:]))
        else:
            mon.skipped = "exception {}: {}".format(type(e).__name__, e)
    finally:
        signal.alarm(0)
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    if mon.skipped == "timeout" and getattr(mod, "HANG_IS_VIOLATION", False):
        mon.violation("no result within {} s".format(timeout))
    return mon


def result_of(mon, i):
    return {"i": i, "counters": mon.counters, "keys": sorted(mon.keys), "sample": mon.sample,
            "violations": mon.violations, "known": mon.known, "skipped": mon.skipped}


def worker(pid, tier, cases_file, indices, out, scratch):
    setup_paths(pid, scratch)
    mod = module_for(pid)
    with open(cases_file) as f:
        cases = json.load(f)
    if hasattr(mod, "start"):
        mod.start()
    with open(out, "a") as o:
        for i in indices:
            o.write(json.dumps({"start": i}) + "\n")
            o.flush()
            mon = run_case(mod, cases[i], tier, scratch)
            o.write(json.dumps(result_of(mon, i), default=str) + "\n")
            o.flush()
            if mon.skipped == "timeout":
                os._exit(0)      # it may have been interrupted anywhere, an import included: go on in a new process


LIBRARIES = ["numpy", "scipy.integrate", "scipy.optimize", "scipy.linalg", "sympy", "mpmath", "matplotlib.pyplot",
             "catplot.ep_components.ep_canvas", "prettytable"]


def load_libraries():
    """Import what the code under test imports from elsewhere, outside any time limit and with its own compiled files."""
    for name in LIBRARIES:
        try:
            importlib.import_module(name)
        except Exception:
            pass      # reported when the code under test misses it


def warm_environment():
    """Environment for processes that run the code under test: libraries precompiled once per check, the code never."""
    d = os.environ.get("SCAKSMON_WARM")
    return {"PYTHONPYCACHEPREFIX": d, "PYTHONDONTWRITEBYTECODE": "1"} if d else {}


def warm(scratch):
    d = os.path.join(scratch, "warm")
    os.environ["SCAKSMON_WARM"] = d
    env = dict(os.environ, PYTHONPYCACHEPREFIX=d)
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    code = "import importlib\nfor n in {!r}:\n    try: importlib.import_module(n)\n    except Exception: pass\n".format(LIBRARIES)
    subprocess.run([sys.executable, "-c", code], env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, timeout=200)


def setup_paths(pid, scratch):
    load_libraries()
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.path.insert(0, REPO)
    mod_name = next(n for n in PROPS if n.split("_")[0] == pid.lower())
    with open(os.path.join(HERE, "props", mod_name + ".py")) as f:
        if "NEEDS_KMCLIB = True" in f.read():
            sys.path.insert(0, STUB)


# ---------------------------------------------------------------------------
# parent side
# ---------------------------------------------------------------------------
def run_all(pid, mod, cases, tier, scratch, deadline):
    """Run the cases over worker processes; returns {index: result}."""
    cases_file = os.path.join(scratch, "cases.json")
    if getattr(mod, "RUNS_SCRIPTS", False):
        warm(scratch)
    with open(cases_file, "w") as f:
        json.dump(cases, f)
    n = min(getattr(mod, "WORKERS", NWORKERS), max(1, len(cases)))
    hard = getattr(mod, "CASE_TIMEOUT", 60) + 15
    shards = [list(range(k, len(cases), n)) for k in range(n)]
    results, procs = {}, {}

    def spawn(k, indices):
        out = os.path.join(scratch, "out_{}.jsonl".format(k))
        log = open(os.path.join(scratch, "log_{}.txt".format(k)), "ab")
        sub = os.path.join(scratch, "w{}".format(k))
        os.makedirs(sub, exist_ok=True)
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "check.py"), "--worker", pid, tier,
                              cases_file, ",".join(map(str, indices)), out, sub],
                             stdout=log, stderr=log, stdin=subprocess.DEVNULL, cwd=sub,
                             start_new_session=True)
        log.close()
        procs[k] = [p, out, 0, time.time(), None]   # proc, file, offset, last activity, running

    def drain(k):
        p, out, off, _, _ = procs[k]
        if not os.path.exists(out):
            return
        with open(out) as f:
            f.seek(off)
            while True:
                pos = f.tell()
                line = f.readline()
                if not line.endswith("\n"):
                    procs[k][2] = pos
                    break
                r = json.loads(line)
                procs[k][3] = time.time()
                if "start" in r:
                    procs[k][4] = r["start"]
                else:
                    results[r["i"]] = r
                    procs[k][4] = None

    def kill(k):
        try:
            os.killpg(procs[k][0].pid, signal.SIGKILL)
        except OSError:
            pass
        procs[k][0].wait()

    for k, idx in enumerate(shards):
        spawn(k, idx)
    deaths = 0
    while procs:
        time.sleep(0.05)
        for k in list(procs):
            p = procs[k][0]
            ended = p.poll() is not None
            drain(k)
            stuck = procs[k][4] is not None and time.time() - procs[k][3] > hard
            idle = procs[k][4] is None and time.time() - procs[k][3] > 120
            if time.time() > deadline:
                kill(k)
                del procs[k]
                continue
            if not ended and (stuck or idle):
                kill(k)
                ended = True
            if ended:
                running = procs[k][4]
                if running is not None:   # died or stuck in this case
                    mon = Mon(tier)
                    mon.skipped = "timeout" if stuck else "worker died (rc {})".format(p.returncode)
                    if (stuck and getattr(mod, "HANG_IS_VIOLATION", False)) or \
                       (not stuck and getattr(mod, "CRASH_IS_VIOLATION", True)):
                        mon.violation("the process " + ("hung" if stuck else
                                      "died (rc {})".format(p.returncode)))
                    results[running] = json.loads(json.dumps(result_of(mon, running)))
                left = [i for i in shards[k] if i not in results]
                del procs[k]
                if left:
                    deaths += 1
                    if deaths < 40 + len(cases):
                        spawn(k, left)
    return results


def main(argv):
    if argv and argv[0] == "--worker":
        _, pid, tier, cases_file, indices, out, scratch = argv
        worker(pid, tier, cases_file, [int(i) for i in indices.split(",")], out, scratch)
        return 0
    if argv and argv[0] == "--selftest":
        return selftest()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == "--tier":
            tier = rest.pop(0)
        elif a == "--seed":
            seed = int(rest.pop(0))
        elif a == "--replay":
            replay = rest.pop(0)
        else:
            raise SystemExit("unknown argument " + a)
    scratch = tempfile.mkdtemp(prefix="scaksmon_")
    try:
        return check(pid, tier, seed, replay, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, tier, seed, replay, scratch):
    t0 = time.time()
    setup_paths(pid, scratch)
    mod = module_for(pid)
    if replay:
        with open(replay) as f:
            cases = [json.load(f)["case"]]
    else:
        rng = random.Random("{}/{}".format(pid, seed))
        cases = json.loads(json.dumps(list(mod.cases(rng, tier))))
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3000)
    results = run_all(pid, mod, cases, tier, scratch, t0 + budget)

    counters, keys, samples = collections.Counter(), set(), []
    violations, known, skipped = [], [], collections.Counter()
    for i in sorted(results):
        r = results[i]
        counters.update(r["counters"])
        keys.update(r["keys"])
        if r["sample"] is not None and len(samples) < 4 and (not samples or i % 7 == 0):
            samples.append(r["sample"])
        if r["skipped"]:
            skipped[r["skipped"]] += 1
        for v in r["violations"]:
            violations.append((i, v))
        for v in r["known"]:
            known.append((i, v))

    # cross-case verdicts
    if hasattr(mod, "finish") and not replay:
        fin = Mon(tier)
        mod.finish(cases, results, fin)
        counters.update(fin.counters)
        keys.update(fin.keys)
        violations += [(None, v) for v in fin.violations]

    listed = known_findings(pid)
    for i, v in known:
        if v["kind"] in listed:
            counters["known_finding_hits"] += 1
        else:
            violations.append((i, v))
    seen = {v["kind"] for _, v in known if v["kind"] in listed}
    for key in sorted(seen):
        print("KNOWN-FINDING: property={} {} [{}]".format(pid, listed[key], key))

    nskip = sum(skipped.values())
    conclusive, why = True, ""
    if len(results) == 0:
        conclusive, why = False, "nothing ran"
    if not replay:
        for name, least in getattr(mod, "MIN", {}).items():
            if counters[name] < least:
                conclusive, why = False, "monitor '{}' saw {} < {}".format(name, counters[name], least)
        if results and nskip > getattr(mod, "MAX_SKIP", 0.1)*len(results):
            conclusive, why = False, "{} of {} cases undecided: {}".format(
                nskip, len(results), dict(skipped.most_common(3)))

    if not replay:
        coverage = {"evaluations": len(results),
                    "distinct_nontrivial": len(keys),
                    "rule": mod.RULE,
                    "samples": samples or [{"case": cases[0] if cases else None}],
                    "observed": {k: counters[k] for k in sorted(counters)},
                    "undecided_cases": dict(skipped),
                    "cases_generated": len(cases)}
        evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                    "coverage": coverage, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
                    "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    print("{} tier={} seed={} cases={} distinct={} assertions={} undecided={} wall={:.1f}s".format(
        pid, tier, seed, len(results), len(keys), counters["assertions"], nskip, time.time() - t0))
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for i, v in violations:
            if v["kind"] in shown or len(shown) >= 5:
                continue
            path = replay or os.path.join(rdir, "{}-{}.json".format(pid, len(shown)))
            shown.add(v["kind"])
            if not replay:
                with open(path, "w") as f:
                    json.dump({"property": pid, "case": cases[i] if i is not None else None,
                               "violation": v, "tier": tier, "seed": seed}, f, indent=1, default=str)
            print("  {}: {}".format(v["kind"], json.dumps(v["detail"], default=str)[:900]))
            print("VIOLATION property={} replay={}".format(pid, path))
        print("{} violations of {} kinds".format(len(violations),
                                                 len({v["kind"] for _, v in violations})))
        return 1
    if not conclusive:
        print("INCONCLUSIVE property={} {}".format(pid, why))
        for k in range(NWORKERS):
            log = os.path.join(scratch, "log_{}.txt".format(k))
            if os.path.exists(log) and not results:
                with open(log, errors="replace") as f:
                    print(f.read()[-1500:])
                break
        return 3
    return 0


def selftest():
    """Everything the checks need is here."""
    sys.path.insert(0, REPO)
    sys.path.insert(0, STUB)
    d = tempfile.mkdtemp(prefix="scaksmon_")
    sys.pycache_prefix = d
    cwd = os.getcwd()
    try:
        os.chdir(d)
        import scaks
        import KMCLib
        assert os.path.dirname(os.path.dirname(os.path.abspath(scaks.__file__))) == REPO
        for name in PROPS:
            m = importlib.import_module("mon.props." + name)
            assert m.RULE and list(m.cases(random.Random(0), "quick")), name
        print("selftest ok: {} checks".format(len(PROPS)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return 0
