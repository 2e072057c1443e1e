"""P30: the native coverage collector is memory safe and agrees with the Python one."""
import math
import os
import subprocess

from ..core import REPO, Skip

NEEDS_KMCLIB = True
RULE = ("a list of types counted by the compiled collector under the address and undefined-behaviour sanitizers (or "
        "valgrind) and compared with an independent count and the Python collector; distinct inputs")
MIN = {"lists compared": 2000, "sites counted": 100000, "degenerate lists": 500, "address sanitizer": 60,
       "valgrind": 4, "second compiler": 10, "compared with Python": 2000, "unlisted types": 500}
CASE_TIMEOUT = 120
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "collect.cpp")
BUILDS = {"asan": ["clang++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                   "-fsanitize-address-use-after-return=always", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG"],
          "gcc": ["g++", "-O2", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
          "valgrind": ["g++", "-O0"]}
WORDS = ["V", "CO", "O_s", "C", "", "a b", "x"*40, "H2O", "-", "C\u00e9", "o", "O"]


def item(rng, big=False):
    """(types, possible types, ratios, comparable)"""
    kind = rng.random()
    words = rng.sample(WORDS, rng.randint(1, len(WORDS))) + ["t{}".format(rng.randrange(99)) for _ in range(rng.randint(0, 4))]
    words = list(dict.fromkeys(words))
    nr = rng.choice([1, 1, 2, 3, 4, 7])
    groups = rng.choice([1, 2, 5, 20, 100]) if not big else rng.choice([500, 2000])
    if kind < 0.75:
        possible = rng.sample(words, rng.randint(0, len(words)))
        n, ok = nr*groups, True
    else:
        possible = [rng.choice(words) for _ in range(rng.randint(0, 9))]
        n, ok = rng.randint(0, nr*groups), False
    ratios = [rng.choice([0.0, 1.0, 0.25, 1.0/nr, rng.random(), rng.uniform(-3, 50), 1e-300, 1e6]) for _ in range(nr)]
    return [[rng.choice(words) for _ in range(n)], possible, ratios, ok]


def cases(rng, tier):
    n = 70 if tier == "quick" else 1500
    for k in range(n):
        yield {"build": "asan", "items": [item(rng, big=(k % 10 == 0 and j == 0)) for j in range(40)]}
    for k in range(n//5):
        yield {"build": "gcc", "items": [item(rng) for _ in range(40)]}
    for k in range(6 if tier == "quick" else 60):
        yield {"build": "valgrind", "items": [item(rng) for _ in range(15)]}


BIN = {}


def binary(name):
    """The harness compiled from the current tree."""
    if name not in BIN:
        out = os.path.abspath("collect_" + name)
        out = os.path.join(os.path.dirname(os.path.dirname(out)), os.path.basename(out) + "_{}".format(os.getpid()))
        cmd = BUILDS[name] + ["-g", "-std=c++11", "-I", os.path.join(REPO, "c++", "include"), HERE,
                              os.path.join(REPO, "c++", "src", "kmc_functions.cpp"), "-o", out]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise Skip("the collector does not compile: " + p.stderr[-300:])
        BIN[name] = out
    return BIN[name]


def encode(items):
    out = [b"%d\n" % len(items)]
    for types, possible, ratios, _ok in items:
        out.append(b"%d %d %d " % (len(types), len(possible), len(ratios)))
        for w in types + possible:
            b = w.encode()
            out.append(b"%d:%s" % (len(b), b))
        out.append(" ".join([""] + [x.hex() for x in ratios]).encode() + b"\n")
    return b"".join(out)


def run(case, mon):
    from scaks.solvers.kmc_plugins.kmc_functions import collect_coverages
    name, items = case["build"], case["items"]
    exe = binary(name)
    with open("in.bin", "wb") as f:
        f.write(encode(items))
    cmd = [exe, "in.bin"]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
    if name == "valgrind":
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite"] + cmd
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, errors="replace")
    if p.returncode == 77:
        raise Skip("the harness could not read its input")
    mon.count({"asan": "address sanitizer", "gcc": "second compiler", "valgrind": "valgrind"}[name])
    lines = p.stdout.splitlines()
    if not mon.check(p.returncode == 0, "the compiled collector misbehaved", rc=p.returncode, monitor=name,
                     report=p.stderr[:1500], item=items[len(lines)] if len(lines) < len(items) else None):
        return
    mon.equal(len(lines), len(items), "number of results")
    for (types, possible, ratios, ok), line in zip(items, lines):
        f = line.split()
        n = int(f[0])
        got, again = [float(x) for x in f[2:2 + n]], [float(x) for x in f[2 + n:]]
        mon.equal(f[1], "1", "the collector changed its inputs")
        mon.equal(n, len(possible), "number of coverages", possible=possible)
        mon.check([repr(x) for x in got] == [repr(x) for x in again], "two calls give different coverages", got=got,
                  again=again)
        if not ok:
            mon.count("degenerate lists")
            continue
        mon.count("lists compared")
        mon.count("sites counted", len(types))
        mon.nontrivial([types[:30], possible, ratios, len(types)])
        mon.count("unlisted types", any(t not in possible for t in types))
        groups = len(types)//len(ratios)
        scale = sum(abs(x) for x in ratios)
        py = collect_coverages(list(types), list(possible), list(ratios))
        mon.count("compared with Python")
        mon.equal(len(py), len(possible), "number of coverages of the Python collector")
        for k, t in enumerate(possible):
            want = math.fsum(ratios[i % len(ratios)] for i, x in enumerate(types) if x == t)/groups
            mon.close(got[k], want, "coverage of the compiled collector", rtol=0, atol=1e-11*scale, type=t,
                      sites=len(types), ratios=ratios)
            mon.close(py[k], got[k], "coverage of the Python collector", rtol=0, atol=1e-11*scale, type=t,
                      sites=len(types), ratios=ratios)
    mon.show({"build": name, "lists": len(items), "first": items[0][1:3]})
