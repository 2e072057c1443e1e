"""P33: models of several MPI ranks do not get in each other's way."""
import builtins
import copy
import io
import json
import logging
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import sys
import time
import traceback

from .. import core, gen, kmc, ref, steady
from .p21_archive import same
from .p16_transient import relative

NEEDS_KMCLIB = True
RULE = ("a program run by several ranks with injected delays, the files and results of each compared with those of a "
        "serial run; distinct (kind, number of ranks, inputs, schedule)")
MIN = {"ranks run": 70, "solved": 25, "log files": 30, "archives": 25, "lattice ranks": 30, "shared files": 90,
       "restarts": 8, "directories existed": 4, "delays": 200,
       "trajectories": 20, "drawings": 8}
CASE_TIMEOUT = 240
MAX_SKIP = 0.3
WORKERS = 4
BUDGET = {"quick": 500}
PLUGINS = ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"]


def cases(rng, tier):
    for i in range(44 if tier == "quick" else 400):
        size = rng.choice([2, 2, 3, 4, 5])
        c = {"size": size, "delays": [round(rng.choice([0, 0, 0.05, 0.2, 0.4])*rng.random(), 3) for _ in range(4*size)],
             "slow_mkdir": rng.choice([0, 0.1, 0.3, 1.5]), "seed": rng.randint(1, 10**6)}
        if i % 2:
            c["kind"] = "lattice"
            k = kmc.case(rng, steps=rng.choice([5, 20, 60]), small=True)
            s = k["setup"]
            s["analysis"] = rng.sample(PLUGINS, rng.randint(1, 4))
            p = dict(k["processes"][0])     # something that can happen in both directions
            k["processes"].insert(0, dict(p, reaction=rng.choice(k["rxns"])))
            nb = len(s["basis_sites"])
            s["coverage_ratios"] = [1.0/nb]*nb
            s["tof_interval"] = rng.choice([1e-12, 1e-9, 1e-6, 1e-3])
            if rng.random() < 0.5:
                s["analysis_interval"] = 1
            c["case"] = k
            c["scripting"] = rng.random() < 0.7
            c["buffer"] = rng.choice([1, 2, 3, 10])
        else:
            c["kind"] = "mean field"
            c["models"] = [steady.case(rng, random_mechs=0.0) for _ in range(size)]
            if rng.random() < 0.5:
                for m in c["models"]:   # a scan over energies of one mechanism
                    one = c["models"][0]
                    m.update(rxns=one["rxns"], defs=one["defs"], c0=one["c0"], T=one["T"])
                    m["abs"] = steady.moderate(rng, one["rxns"])
            c["log"] = rng.random() < 0.3
            c["data"] = rng.random() < 0.3
            c["restart"] = rng.random() < 0.6
            c["plot"] = rng.random() < 0.5
            if c["plot"]:       # every rank draws the same model
                for m in c["models"][1:]:
                    m.update(copy.deepcopy(c["models"][0]))
            for m in c["models"]:
                m["plot"] = c["plot"]
                m["ode"] = dict(e=relative(rng, len(m["rxns"]), m["T"]), span=rng.choice([0.05, 0.1, 0.3]),
                                n=rng.randint(2, 40), every=rng.choice([1, 1, 2, 3]))
        yield c


# ---------------------------------------------------------------------------
# one rank
# ---------------------------------------------------------------------------
class Comm(object):
    """A communicator between processes, with delays."""

    def __init__(self, rank, size, bar, pause):
        self.rank_, self.size_, self.bar, self.pause, self.n = rank, size, bar, pause, 0

    def Get_rank(self):
        return self.rank_

    def Get_size(self):
        return self.size_
    rank, size = property(Get_rank), property(Get_size)

    def barrier(self):
        self.pause()
        self.bar.wait(40)
        self.pause()
    Barrier = barrier

    def allgather(self, x):
        with open(os.path.join("..", "comm_%d" % self.rank_), "wb") as f:
            pickle.dump(x, f)
        self.bar.wait(40)
        out = []
        for r in range(self.size_):
            with open(os.path.join("..", "comm_%d" % r), "rb") as f:
                out.append(pickle.load(f))
        self.bar.wait(40)
        return out

    def gather(self, x, root=0):
        out = self.allgather(x)
        return out if self.rank_ == root else None

    def bcast(self, x, root=0):
        return self.allgather(x)[root]


class Alone(object):
    """The communicator of a serial run."""
    rank, size = 0, 1

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def barrier(self):
        pass
    Barrier = barrier

    def gather(self, x, root=0):
        return [x]
    allgather = gather

    def bcast(self, x, root=0):
        return x


def start():
    """The real MPI is not initialised: its processes may not be forked."""
    import mpi4py
    mpi4py.rc.initialize = mpi4py.rc.finalize = False
    from mpi4py import MPI
    MPI.COMM_WORLD = Alone()


def rank_process(rank, c, bar, program):
    """Everything one rank does; what it saw goes to ../rank_<n>.pkl."""
    out = {"rank": rank, "written": [], "error": None, "delays": 0}
    from mpi4py import MPI
    mine = list(c["delays"][rank::c["size"]])
    rng = random.Random("{}/{}".format(c["seed"], rank))

    def pause():
        if mine:
            d = mine.pop(0)
            out["delays"] += 1
            time.sleep(d)
    MPI.COMM_WORLD = Comm(rank, c["size"], bar, pause)
    real = {"open": builtins.open, "mkdir": os.mkdir}
    here = os.getcwd()

    def watched_open(file, mode="r", *a, **k):
        if isinstance(file, (str, bytes, os.PathLike)) and set(mode) & set("wax+"):
            path = os.path.abspath(os.fsdecode(file))
            if path.startswith(here + os.sep):
                out["written"].append(os.path.relpath(path, here))
                time.sleep(rng.choice([0, 0, 0.01, 0.03]))
        return real["open"](file, mode, *a, **k)

    def slow_mkdir(path, *a, **k):
        time.sleep(c["slow_mkdir"])
        out["delays"] += 1
        return real["mkdir"](path, *a, **k)
    err = io.StringIO()
    stderr, sys.stderr = sys.stderr, err
    builtins.open, os.mkdir = watched_open, slow_mkdir
    try:
        pause()
        program(rank, c, out)
    except BaseException as e:
        out["error"] = "{}: {}\n{}".format(type(e).__name__, e, traceback.format_exc()[-1500:])
        try:
            bar.abort()
        except Exception:
            pass
    finally:
        builtins.open, os.mkdir = real["open"], real["mkdir"]
        sys.stderr = stderr
    out["stderr"] = err.getvalue()
    with open(os.path.join("..", "rank_%d.pkl" % rank), "wb") as f:
        pickle.dump(out, f)
    os._exit(0)


def ranks(c, program):
    """Run a program on all ranks in ./shared; returns what each of them saw."""
    os.makedirs("shared", exist_ok=True)
    ctx = multiprocessing.get_context("fork")
    bar = ctx.Barrier(c["size"])
    here = os.getcwd()
    os.chdir("shared")
    try:
        ps = [ctx.Process(target=rank_process, args=(r, c, bar, program), daemon=True) for r in range(c["size"])]
        for p in ps:
            p.start()
        end = time.time() + 70
        for p in ps:
            p.join(max(0.1, end - time.time()))
        for p in ps:
            if p.is_alive():
                p.kill()
                p.join()
    finally:
        os.chdir(here)
    outs = []
    for r in range(c["size"]):
        name = "rank_%d.pkl" % r
        if os.path.exists(name):
            with open(name, "rb") as f:
                outs.append(pickle.load(f))
            os.remove(name)
        else:
            outs.append(None)
    return outs


def failed(outs, mon, **kw):
    bad = [o["error"] for o in outs if o and o["error"]]
    if None in outs and all("BrokenBarrier" in b for b in bad):
        if os.path.exists("stalled"):
            mon.violation("the ranks wait for each other", error=bad[:1], ranks=len(outs), **kw)
            return True
        raise Stalled()
    first = [b for b in bad if "BrokenBarrier" not in b] or bad
    return not mon.check(not bad, "a rank failed", error=first[:1], ranks=len(outs), **kw)


# ---------------------------------------------------------------------------
# mean field models
# ---------------------------------------------------------------------------
def logged_model(mc, rank, **kw):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    setup = dict(rxn_expressions=list(mc["rxns"]), species_definitions=copy.deepcopy(mc["defs"]), temperature=mc["T"],
                 parser="AbsoluteEnergyParser", solver="SteadyStateSolver", decimal_precision=50, tolerance=1e-12,
                 max_rootfinding_iterations=60, ode_output_interval=mc["ode"]["every"])
    if mc["plot"]:
        setup["plotter"] = "EnergyProfilePlotter"
    for h in list(logging.getLogger("model").handlers):
        logging.getLogger("model").removeHandler(h)
    m = MicroKineticModel(setup_dict=setup, logger_level=logging.INFO, file_handler_level=logging.INFO,
                          console_handler_level=logging.INFO)
    m.parser.parse_data(filename=mc["file"])
    m.solver.get_data()
    steady.bounded(m, 3)
    return m


class Slow(BaseException):
    pass


def solve(m, mc):
    """The results, None if it does not converge or "slow"."""
    def late(signum, frame):
        raise Slow()
    old, left = signal.signal(signal.SIGALRM, late), signal.alarm(15)
    try:
        m.run(init_cvgs=list(mc["c0"]) if mc["c0"] is not None else None, coarse_guess=False)
        return [m.steady_state_coverages, list(m.TOFs), m.error]
    except (steady.GiveUp, ValueError, ZeroDivisionError, TypeError):
        return None
    except Slow:
        return "slow"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        signal.alarm(max(1, left - 15) if left else 0)


def transient(m, mc):
    """Integrate slow reactions, with a trajectory."""
    o, n = mc["ode"], len(m.adsorbate_names)
    t, x = m.solver.solve_ode(time_span=o["span"], time_end=o["span"]*o["n"], initial_cvgs=[0.01/(k + 2) for k in range(n)],
                              relative_energies=copy.deepcopy(o["e"]), traj_output=True)
    return float(t), [float(v) for v in x]


def draw(m):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    real = Figure.savefig

    def coarse(self, *a, **k):
        k.setdefault("dpi", 20)
        return real(self, *a, **k)
    Figure.savefig = coarse
    try:
        m.plotter.plot_all()
    except (ValueError, IndexError) as e:
        if "rel" in str(e) and "energ" in str(e):
            raise
    finally:
        Figure.savefig = real
        plt.close("all")


def mean_field(rank, c, out):
    mc = c["models"][rank]
    m = logged_model(mc, rank)
    k = len(out["written"])
    out["transient"] = transient(m, mc)
    out["trajectories"] = sorted(set(out["written"][k:]) - {m.data_file.replace("./", "")})
    if c["plot"]:
        draw(m)
    out["results"] = solve(m, mc)
    out["data_file"] = m.data_file
    if c["restart"]:
        n = logged_model(dict(mc), rank)
        first, f = [], n.solver.steady_state_function

        def watched(cvgs, *a, **k):
            first.append([float(v) for v in cvgs])
            return f(cvgs, *a, **k)
        n.solver.steady_state_function = watched
        ok = out["results"] not in (None, "slow")
        out["again"] = solve(n, dict(mc, c0=None)) if ok else None
        out["began"] = first[:1]
    logging.getLogger("model").info("last words of rank %d", rank)


def run_mean_field(c, mon):
    for r, mc in enumerate(c["models"]):
        mc["file"] = os.path.abspath("abs_%d.py" % r)
        with open(mc["file"], "w") as f:
            f.write("absolute_energies = {!r}\n".format(mc["abs"]))
    os.makedirs("shared")
    for name in ("log", "data"):
        if c[name]:
            os.mkdir(os.path.join("shared", name))
            mon.count("directories existed")
    outs = ranks(c, mean_field)
    kw = dict(schedule=c["delays"], slow_mkdir=c["slow_mkdir"], restart=c["restart"])
    if failed(outs, mon, **kw):
        return
    # the same models one after the other in a process of its own each
    serial = []
    for r, mc in enumerate(c["models"]):
        d = "serial_%d" % r
        os.mkdir(d)
        os.chdir(d)
        m = steady.build(mc, attempts=3, tolerance=1e-12, max_rootfinding_iterations=60, ode_output_interval=mc["ode"]["every"],
                         **({"plotter": "EnergyProfilePlotter"} if c["plot"] else {}))
        mc["transient"], mc["rows"] = transient(m, mc), None
        for n in os.listdir("."):
            if recorded(n):
                mc["rows"] = rows(n)
        if c["plot"]:
            draw(m)
        serial.append(solve(m, mc))
        os.chdir("..")
    for r, (o, w) in enumerate(zip(outs, serial)):
        mon.count("ranks run")
        mon.count("delays", o["delays"])
        mc = c["models"][r]
        kw = dict(rank=r, ranks=c["size"], rxns=mc["rxns"], slow_mkdir=c["slow_mkdir"])
        mon.nontrivial(["mean field", c["size"], mc["rxns"], mc["abs"]])
        mon.equal(o["transient"], mc["transient"], "the integration of a rank differs from that of a serial run", **kw)
        own = [rows(os.path.join("shared", n)) for n in o["trajectories"] if recorded(os.path.join("shared", n))]
        mon.check(own == [mc["rows"]] and mc["rows"] is not None, "the recorded integration of a rank is not that of a serial run",
                  files=o["trajectories"], got=own and own[0] and len(own[0][0]), want=len(mc["rows"][0]), **kw)
        mon.count("trajectories")
        if "slow" in (o["results"], w, o.get("again")):
            mon.count("slow solutions")
            continue
        if not mon.equal(o["results"] is None, w is None, "a rank and a serial run do not both converge", **kw):
            continue
        data = os.path.join("shared", "data", "data_%d.pkl" % r)
        if w is None:
            mon.check(not os.path.exists(data) or "steady_state_coverages" not in pickle.load(open(data, "rb")),
                      "a rank that did not converge has an archived steady state", **kw)
        else:
            mon.count("solved")
            x, tofs, error = o["results"]
            mon.check(all(abs(ref.conv(a) - ref.conv(b)) <= ref.mpf(10)**-12 for a, b in zip(x, w[0])) and len(x) == len(w[0]),
                      "the coverages of a rank differ from a serial run", got=[float(v) for v in x], want=[float(v) for v in w[0]], **kw)
            mon.count("archives")
            if mon.check(os.path.exists(data), "no archive of a rank", found=sorted(os.listdir("shared")), **kw):
                got = pickle.load(open(data, "rb"))
                y = (o["again"] or o["results"])[0] if c["restart"] else x
                mon.check(same(got.get("steady_state_coverages", ()), y), "the archive of a rank holds other coverages",
                          got=got, want=y, **kw)
            if c["restart"]:
                mon.count("restarts")
                mon.check(o["began"] and max(abs(a - float(b)) for a, b in zip(o["began"][0], x)) < 1e-12,
                          "a restart of a rank did not begin with its own coverages", got=o["began"], want=[float(v) for v in x], **kw)
        name = os.path.join("shared", "log", "out_%d.log" % r)
        if mon.check(os.path.exists(name), "no log of a rank", found=sorted(os.listdir("shared")), **kw):
            mon.count("log files")
            text = open(name).read()
            mon.check("last words of rank %d" % r in text and text.count("last words") == 1, "the log of a rank is not its own", **kw)
        mon.equal("INFO" in o["stderr"], r == 0, "which rank tells its progress on the console", stderr=o["stderr"][-300:], **kw)
        others = {p for k, q in enumerate(outs) if k != r for p in q["written"] if not p.startswith("energy_profile")}
        mon.equal(sorted(others & set(o["written"])), [], "a rank wrote a file of another rank", **kw)
    if c["plot"]:
        dirs = ["serial_0/energy_profile", "shared/energy_profile"]
        want, got = [sorted(os.listdir(d)) if os.path.isdir(d) else None for d in dirs]
        mon.equal(got, want, "drawings of the ranks", ranks=c["size"])
        for n in got or []:
            mon.count("drawings")
            with open(os.path.join(dirs[0], n), "rb") as f, open(os.path.join(dirs[1], n), "rb") as g:
                mon.check(f.read() == g.read(), "a drawing of the ranks differs from that of a serial run", file=n)
    names = sorted(os.listdir("shared"))
    mon.check("data.pkl" not in names and "out.log" not in names, "a file of serial runs was written by ranks", found=names)


# ---------------------------------------------------------------------------
# lattice models
# ---------------------------------------------------------------------------
def lattice(rank, c, out):
    import KMCLib
    from scaks.solvers import kmc_plugins as kp
    k = c["case"]
    rng = random.Random("{}:{}".format(c["seed"], rank))
    slow = rng.random() < 0.5

    def hook(step):
        if slow and rng.random() < 0.2:
            time.sleep(0.01)
    m = kmc.model(k, parse=False)
    m.parser.parse_data(energy_file="../k_energy.py", processes_file="../k_processes.py",
                        configuration_file="../k_configuration.py", sitesmap_file="../k_sites.py")
    KMCLib.HOOKS["before_step"] = hook if c["seed"] else None
    m.run(scripting=c["scripting"])
    log = KMCLib.HISTORY[-1]
    out["events"] = [e[:3] for e in log["events"]]
    out["log_allowed"] = m.log_allowed
    # the plugins with buffers that fill up in the run
    m.parser.parse_data(energy_file="../k_energy.py", processes_file="../k_processes.py",
                        configuration_file="../k_configuration.py", sitesmap_file="../k_sites.py")
    n = c["buffer"]
    plugins = [kp.CoveragesAnalysis(m, filename="auto_own_c.py", buffer_size=n),
               kp.TOFAnalysis(m, filename="auto_own_t.py", buffer_size=n),
               kp.FrequencyAnalysis(m, filename="auto_own_f.py"),
               kp.EventAnalysis(m, filename="auto_own_e.txt", buffer_size=n)]
    lm = KMCLib.KMCLatticeModel(m.configuration, m.sitesmap, KMCLib.KMCInteractions(m.processes))
    cp = m.solver.get_control_parameters()
    cp.kwargs["analysis_interval"] = 1
    lm.run(cp, analysis=plugins)


def run_lattice(c, mon):
    k = c["case"]
    kmc.write_inputs(k)
    os.makedirs("alone/inner")
    os.chdir("alone/inner")
    for name in os.listdir("../.."):
        if name.startswith("k_"):
            shutil.copy(os.path.join("../..", name), "..")
    want = {}
    try:
        lattice(0, dict(c, seed=0), want)
    except ZeroDivisionError:
        raise core.Skip("nothing can happen")
    finally:
        import KMCLib
        KMCLib.HOOKS["before_step"] = None
        os.chdir("../..")
    outs = ranks(c, lattice)
    kw = dict(plugins=k["setup"]["analysis"], schedule=c["delays"])
    if failed(outs, mon, **kw):
        return
    for o in outs:
        mon.count("ranks run")
        mon.count("lattice ranks")
        mon.count("delays", o["delays"])
        mon.nontrivial(["lattice", c["size"], k["setup"], c["seed"]])
        mon.equal(o["events"], want["events"], "a rank executed other events", rank=o["rank"], **kw)
        mon.equal(o["log_allowed"], o["rank"] == 0, "which rank may log", rank=o["rank"])
        shared = sorted({p for p in o["written"] if p.startswith("auto_")})
        if o["rank"]:
            mon.equal(shared, [], "a rank other than the master wrote a file of the run", rank=o["rank"], **kw)
    names = sorted(n for n in os.listdir("alone/inner") if n.startswith("auto_"))
    mon.equal(sorted(n for n in os.listdir("shared") if n.startswith("auto_")), names, "files of the run", **kw)
    for n in names:
        mon.count("shared files")
        if n == "auto_kmc_model.py" or not os.path.exists(os.path.join("shared", n)):
            continue
        mon.equal(content(os.path.join("shared", n)), content(os.path.join("alone/inner", n)),
                  "a file of the run differs from that of a serial run", file=n, **kw)
    mon.show({"ranks": c["size"], "plugins": k["setup"]["analysis"], "files": names})


def recorded(name):
    """Whether this is a file of a trajectory."""
    if not os.path.isfile(name):
        return False
    with open(name, errors="replace") as f:
        text = f.read()
    return "times" in text and "coverages" in text


def rows(name):
    ns = {}
    try:
        with open(name) as f:
            exec(f.read(), ns)
        return [list(ns["times"]), [list(map(float, y)) for y in ns["coverages"]]]
    except Exception as e:
        return [[], "not readable: {}: {}".format(type(e).__name__, e)]


def content(name):
    try:
        return json.dumps(kmc.load(name), sort_keys=True, default=str)
    except Exception:
        with open(name) as f:
            return f.read()


class Stalled(Exception):
    pass


def run(case, mon):
    fn = run_lattice if case["kind"] == "lattice" else run_mean_field
    os.mkdir("first")
    os.chdir("first")
    try:
        fn(copy.deepcopy(case), mon)
    except Stalled:     # once may be the machine, twice is not
        mon.count("stalled once")
        os.chdir("..")
        os.mkdir("second")
        os.chdir("second")
        open("stalled", "w").close()
        fn(copy.deepcopy(case), mon)
