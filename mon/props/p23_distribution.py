"""P23: distributing work over MPI ranks loses and duplicates nothing."""
import json
import os
import shutil
import subprocess
import sys
import threading

from .. import core
from ..core import HERE, REPO

RUNS_SCRIPTS = True
RULE = "a list that was distributed and gathered again; distinct (number of items, number of ranks, kind of item)"
MIN = {"lists split": 300, "sizes split": 2000, "lists gathered": 300, "ranks run": 300, "broadcasts": 300}
CASE_TIMEOUT = 100


def items(rng, n):
    kind = rng.choice(["int", "same", "text", "list", "none", "mixed", "dict", "tuple", "str", "range"])
    v = {"int": lambda i: i, "same": lambda i: 7, "text": lambda i: "s%d" % i, "list": lambda i: [i, [i]],
         "none": lambda i: None, "mixed": lambda i: [i, "x%d" % i, None, 0.5*i, [], False][i % 6],
         "dict": lambda i: {"k": i}, "tuple": lambda i: i, "str": lambda i: i, "range": lambda i: i}[kind]
    return kind, [v(i) for i in range(n)]


def cases(rng, tier):
    for size in range(1, 17):
        for k in range(3 if tier == "quick" else 20):
            yield {"mode": "simulated", "size": size,
                   "lists": [items(rng, n) for n in
                             [0, 1, size - 1, size, size + 1, 2*size - 1, 2*size, rng.randint(0, 300),
                              rng.randint(0, 3*size), rng.randint(0, 40)]],
                   "sizes": list(range(0, 3*size + 2)) + [rng.randint(0, 10**6) for _ in range(20)]}
    for i in range(3 if tier == "quick" else 12):
        size = [3, 1, 4, 2, 5, 7, 8, 6][i % 8]
        yield {"mode": "mpirun", "size": size,
               "lists": [items(rng, n) for n in (0, 1, size, size + 1, 2*size - 1, rng.randint(0, 60))],
               "sizes": list(range(0, 3*size + 2))}


def make(kind, v):
    if kind == "tuple":
        return tuple(v)
    if kind == "str":
        return "".join(chr(97 + i % 26) for i in range(len(v)))
    if kind == "range":
        return range(len(v))
    return list(v)


def rank_program(util, master_only, case, barrier=True):
    """What one rank does; everything it observed is returned."""
    out = {"rank": util.rank, "size": util.size, "master": util.is_master, "pieces": [], "sizes": [], "merged": [],
           "bcast": [], "only": []}
    for kind, v in case["lists"]:
        seq = make(kind, v)
        piece = util.split_seq(seq)
        out["pieces"].append([type(piece).__name__, list(piece)])
        merged = util.merge_seq(list(piece))
        out["merged"].append(list(merged))
        util.barrier()
        data = {"data": v, "from": 0} if util.is_master else {"from": util.rank}
        out["bcast"].append(util.bcast(data))
    for n in case["sizes"]:
        out["sizes"].append(util.split_size(n))

    @master_only
    def only(a, b=0):
        """doc"""
        out["only"].append([a, b])
        return a + b
    out["returned"] = only(3, b=4)
    out["name"] = [only.__name__, only.__doc__]
    return out


class Exchange(object):
    """A communicator of threads standing for the ranks."""

    def __init__(self, size):
        self.size = size
        self.bar = threading.Barrier(size, timeout=60)
        self.slots = [None]*size
        self.local = threading.local()

    def Get_rank(self):
        return self.local.rank

    def Get_size(self):
        return self.size

    rank = property(Get_rank)

    def barrier(self):
        self.bar.wait()
    Barrier = barrier

    def allgather(self, x):
        self.slots[self.local.rank] = json.dumps(x)
        self.bar.wait()
        out = [json.loads(s) for s in self.slots]
        self.bar.wait()
        return out

    def gather(self, x, root=0):
        out = self.allgather(x)
        return out if self.local.rank == root else None

    def bcast(self, x, root=0):
        return self.allgather(x)[root]


def simulated(case):
    from mpi4py import MPI
    import logging
    from scaks import mpicommons
    logging.getLogger().setLevel(logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    ex = Exchange(case["size"])
    real = MPI.COMM_WORLD
    MPI.COMM_WORLD = ex
    outs, errors = [None]*case["size"], []

    def target(r):
        ex.local.rank = r
        try:
            outs[r] = rank_program(mpicommons.mpi, mpicommons.master_only, case)
        except BaseException as e:
            errors.append("{}: {}".format(type(e).__name__, e))
            ex.bar.abort()
    try:
        ts = [threading.Thread(target=target, args=(r,), daemon=True) for r in range(case["size"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        MPI.COMM_WORLD = real
        logging.disable(logging.NOTSET)
    return outs, [e for e in errors if "BrokenBarrier" not in e] or errors


def mpirun(case):
    """Real ranks; None if mpirun can not run here."""
    exe = shutil.which("mpirun")
    if not exe:
        return None
    with open("case.json", "w") as f:
        json.dump(case, f)
    with open("rank.py", "w") as f:
        f.write("import sys, json, logging\nsys.path[:0] = [{!r}, {!r}]\nlogging.disable(logging.CRITICAL)\n"
                "from scaks import mpicommons\nfrom mon.props.p23_distribution import rank_program\n"
                "out = rank_program(mpicommons.mpi, mpicommons.master_only, json.load(open('case.json')))\n"
                "json.dump(out, open('rank_%d.json' % out['rank'], 'w'))\n".format(REPO, os.path.dirname(HERE)))
    env = dict(os.environ, HOME=os.getcwd(), TMPDIR=os.getcwd(), **core.warm_environment())
    cmd = [exe, "--allow-run-as-root", "--oversubscribe", "-np", str(case["size"])]
    probe = cmd + [sys.executable, "-c", "from mpi4py import MPI; print('R', MPI.COMM_WORLD.size)"]
    try:
        p = subprocess.run(probe, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
        if p.returncode or p.stdout.decode().count("R %d" % case["size"]) != case["size"]:
            return None
        p = subprocess.run(cmd + [sys.executable, "rank.py"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=50)
    except subprocess.TimeoutExpired:
        return None
    outs = []
    for r in range(case["size"]):
        name = "rank_%d.json" % r
        outs.append(json.load(open(name)) if os.path.exists(name) else None)
    return outs, [p.stdout.decode()[-500:]] if p.returncode else []


def run(case, mon):
    if case["mode"] == "mpirun":
        r = mpirun(case)
        if r is None:
            mon.count("mpirun not usable")
            return
        outs, errors = r
        mon.count("real ranks run", len(outs))
    else:
        outs, errors = simulated(case)
    mon.check(not errors, "a rank failed", errors=errors[:2])
    if errors or None in outs:
        mon.check(None not in outs, "a rank gave no result")
        return
    n = case["size"]
    mon.count("ranks run", n)
    mon.equal([o["rank"] for o in outs], list(range(n)), "ranks")
    mon.equal([o["size"] for o in outs], [n]*n, "number of ranks")
    mon.equal([o["master"] for o in outs], [True] + [False]*(n - 1), "which rank is the master")
    for i, (kind, v) in enumerate(case["lists"]):
        seq = make(kind, v)
        want = json.loads(json.dumps(list(seq)))
        pieces = [json.loads(json.dumps(o["pieces"][i][1])) for o in outs]
        mon.equal([x for p in pieces for x in p], want, "the pieces are not the whole list", ranks=n, items=len(want),
                  sizes=[len(p) for p in pieces])
        lens = [len(p) for p in pieces]
        mon.check(max(lens) - min(lens) <= 1, "the pieces are unbalanced", ranks=n, items=len(want), sizes=lens)
        mon.count("lists split")
        for o in outs:
            mon.equal(json.loads(json.dumps(o["merged"][i])), want, "the gathered list differs", rank=o["rank"], ranks=n)
            mon.equal(json.loads(json.dumps(o["bcast"][i])), {"data": json.loads(json.dumps(v)), "from": 0},
                      "the broadcast data differs", rank=o["rank"])
            mon.count("lists gathered")
            mon.count("broadcasts")
        mon.nontrivial([len(want), n, kind, case["mode"]])
    for i, size in enumerate(case["sizes"]):
        got = [o["sizes"][i] for o in outs]
        mon.equal(sum(got), size, "the split sizes do not add up", ranks=n, got_sizes=got)
        mon.check(max(got) - min(got) <= 1 and min(got) >= 0 and all(type(x) is int for x in got),
                  "the split sizes are unbalanced", ranks=n, size=size, got_sizes=got)
        mon.count("sizes split")
    for o in outs:
        mon.equal(o["only"], [[3, 4]] if o["rank"] == 0 else [], "a master only function", rank=o["rank"])
        mon.equal(o["returned"], 7 if o["rank"] == 0 else None, "the result of a master only function", rank=o["rank"])
        mon.equal(o["name"], ["only", "doc"], "a master only function changed its name")
    mon.show({"ranks": n, "mode": case["mode"], "pieces": [len(o["pieces"][-1][1]) for o in outs]})
