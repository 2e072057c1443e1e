"""P37: a scripted lattice run reports what happened; continuing it takes up from there."""
import glob
import json
import os
import shutil
import subprocess
import sys

from .. import core, kmc, util
from ..core import REPO
from . import p28_coverage_log as p28, p29_event_logs as p29

RUNS_SCRIPTS = True
NEEDS_KMCLIB = True
RULE = ("a run of the lattice run script in a directory of its own, its exit status and files judged by the history the "
        "simulation recorded; distinct (inputs, kind of run)")
MIN = {"scripts run": 20, "continued": 8, "failures": 6, "event tables": 80, "start time written": 4, "start time replaced": 3, "engine failures": 6}
CASE_TIMEOUT = 120
BUDGET = {"quick": 420}
FOLDER = os.path.join(REPO, "scripts", "kmc_run")
STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "kmcstub")
FAULTS = ["unbalanced", "no energies", "no processes", "short process", "impossible type", "syntax", "no setup", "no pressure"]
ENGINE = ["IndexError", "ValueError", "KeyError", "RuntimeError", "TypeError", "AttributeError", "OSError", "MemoryError",
          "ZeroDivisionError", "StopIteration"]
SETUP = "pt-100.mkm"
FOREIGN = ["notes.txt", "queue.log", "out.log.old", "automatic.txt", "model.mkm.bak"]


def cases(rng, tier):
    for i in range(24 if tier == "quick" else 300):
        steps = rng.choice([3, 10, 20, 40])
        c = kmc.case(rng, nproc=rng.randint(1, 4), steps=steps, small=True)
        s = c["setup"]
        for p in c["processes"]:
            p.pop("redist", None)
        nb = len(s["basis_sites"])
        s["coverage_ratios"] = [1.0/nb]*nb
        s["analysis"] = rng.sample(["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"], rng.randint(2, 4))
        s["tof_start"] = rng.choice([0, 0, 1, steps//2])
        s["tof_interval"] = float("%.3g" % 10**rng.uniform(-4, 1.5))
        if rng.random() < 0.5:
            s["start_time"] = round(rng.uniform(0.1, 5), 3)
        c["fault"] = rng.choice(FAULTS) if i % 3 == 2 else None
        if c["fault"] == "no pressure" and not any(k.endswith("_g") for k in c["defs"]):
            c["fault"] = "syntax"
        c["engine"] = ["{} {}".format(ENGINE[(i//6*3 + k) % len(ENGINE)], rng.choice([0, 1, steps//2]))
                       for k in range(3)] if i % 6 == 1 else []
        c["continue"] = rng.randint(1, 2) if rng.random() < 0.7 else 0
        c["order"] = rng.random()
        c["bare"] = rng.random() < 0.4
        yield c


def setup_text(c):
    s = dict(c["setup"], rxn_expressions=list(c["rxns"]), species_definitions=dict(c["defs"]), temperature=c["T"],
             parser="KMCParser", solver="KMCSolver")
    if c["fault"] == "unbalanced":
        s["rxn_expressions"][-1] += " + H2_g"
        s["species_definitions"]["H2_g"] = {"pressure": 1.0}
    if c["fault"] == "no pressure":
        del s["species_definitions"][[k for k in c["defs"] if k.endswith("_g")][0]]
    for k in ("repetitions", "periodic"):
        s[k] = tuple(s[k])
    names = sorted(s, key=lambda n: hash_of(n, c["order"]))
    lines = ["{} = {!r}".format(n, s[n]) for n in names]
    lines = [l + "   # from start_time on" if len(l) % 3 == 0 else l for l in lines]
    lines.insert(1, "# start_time = 99.0 is not meant")
    if c["fault"] == "syntax":
        lines.append("temperature = = 3")
    return "\n".join(lines) + ("" if c["bare"] else "\n")


def hash_of(name, x):
    return sum((i + 1)*ord(ch)*(x + 0.1) for i, ch in enumerate(name)) % 1.0


def write_inputs(c):
    if c["fault"] != "no energies":
        util.write_values("rel_energy.py", {"Ga": c["e"]["Gaf"], "dG": c["e"]["dG"]}, c["e"])
    procs = [dict(p) for p in c["processes"]]
    if c["fault"] == "short process":
        procs[-1]["elements_after"] = procs[-1]["elements_after"] + ["V"]
    if c["fault"] != "no processes":
        util.write_values("kmc_processes.py", {"processes": procs}, c["processes"])
    types = c["types"]
    if c["fault"] == "impossible type":
        types = ["nothing"]*c["nsite"]
    if types is not None:
        util.write_values("kmc_configuration.py", {"types": types}, [c["e"], "types"])
    if c["site_types"] is not None:
        util.write_values("kmc_sites.py", {"site_types": c["site_types"]}, [c["e"], "sites"])
    if c["fault"] != "no setup":
        with open(SETUP, "w") as f:
            f.write(setup_text(c))


def launch(script, engine=None):
    env = dict(os.environ, **core.warm_environment(), PYTHONPATH=REPO + os.pathsep + STUB,
               HOME=os.path.abspath(".."), TMPDIR=os.path.abspath(".."), MPLBACKEND="Agg", KMCSTUB_HISTORY=os.path.abspath("history.json"),
               KMCSTUB_FAIL=engine or "")
    try:
        p = subprocess.run([sys.executable, script], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=50)
    except subprocess.TimeoutExpired:
        raise core.Skip("takes too long")
    return p.returncode, p.stdout.decode(errors="replace")


def history():
    with open("history.json") as f:
        log = json.load(f)
    log["events"] = [tuple(e) for e in log["events"]]
    return log


def simulate(mon, kw):
    """A run of the script in the current directory."""
    shutil.copy(os.path.join(FOLDER, "run.py"), "run.py")
    code, text = launch("run.py")
    mon.count("scripts run")
    return code, text


def judge(c, mon, log, kw):
    s = c["setup"]
    labels, nproc = kmc.labels(c), len(kmc.expansion(c))
    mon.equal(log["analysis"], s["analysis"], "analysis of the run", **kw)
    mon.equal(log["cp"]["number_of_steps"], s["nstep"], "steps of the run", **kw)
    mon.equal(log["possible_types"], s["possible_element_types"], "possible types of the run", **kw)
    if c["site_types"] is not None:
        mon.equal(log["sites"], c["site_types"], "site types of the run", **kw)
    for k, name in enumerate(s["analysis"]):
        if name == "CoveragesAnalysis":
            p28.compare(mon, c, kmc.load("auto_coverages.py"), p28.expected(c, log, k), "script")
        elif name == "FrequencyAnalysis":
            p29.frequency(mon, c, log, k, kmc.load("auto_frequency.py"), labels, nproc)
        elif name == "TOFAnalysis":
            p29.turnover(mon, c, log, k, kmc.load("auto_tofs.py"), labels, nproc)
        else:
            with open("auto_events.txt") as f:
                p29.events(mon, c, log, k, f.read(), labels, log["rates"])
    with open("out.log") as f:
        mon.check("Traceback" not in f.read(), "the log of a successful run", **kw)


def run(case, mon):
    c = case
    kw = dict(rxns=c["rxns"], fault=c["fault"], analysis=c["setup"]["analysis"])
    os.mkdir("job")
    os.chdir("job")
    write_inputs(c)
    for n in FOREIGN:
        with open(n, "w") as f:
            f.write("mine")
    for engine in c["engine"]:
        shutil.copy(os.path.join(FOLDER, "run.py"), "run.py")
        code, text = launch("run.py", engine)
        if not c["fault"] and "the engine fails" in text:
            mon.count("engine failures")
            mon.check(code != 0, "a simulation that failed was reported as a success", engine=engine, output=text[-600:], **kw)
        mon.check(not os.path.exists("history.json") or not c["fault"], "a faulty setup was simulated", **kw)
        if os.path.exists("history.json"):
            os.remove("history.json")
        for f in glob.glob("auto_*") + glob.glob("out.log"):
            os.remove(f)
    code, text = simulate(mon, kw)
    mon.nontrivial([c["rxns"], c["setup"], c["fault"], c["processes"]])
    for n in FOREIGN:
        mon.check(os.path.exists(n) and open(n).read() == "mine", "the script touched a file that is not its own", file=n, **kw)
    if c["fault"]:
        mon.count("failures")
        mon.check(code != 0, "a faulty setup was run successfully", output=text[-300:], **kw)
        mon.check(not os.path.exists("history.json"), "a faulty setup was simulated", **kw)
        return
    if not mon.equal(code, 0, "the script failed", output=text[-1500:], **kw):
        return
    log = history()
    mon.equal(log["start"], c["setup"].get("start_time", 0.0), "start of the run", **kw)
    if c["types"] is not None:
        mon.equal(log["initial"], c["types"], "initial types", **kw)
    judge(c, mon, log, kw)
    for k in range(c["continue"]):
        before = namespace(SETUP)
        continued()
        code, text = launch(os.path.join(FOLDER, "change_start_time.py"))
        mon.count("continued")
        mon.count("start time written", "start_time" not in before)
        mon.count("start time replaced", "start_time" in before)
        if not mon.equal(code, 0, "the start time could not be changed", output=text[-600:], **kw):
            return
        after = namespace(SETUP)
        last = log["events"][-1][1] if log["events"] else log["start"]
        mon.equal(after.pop("start_time", None), last, "start time of the continued setup", **kw)
        before.pop("start_time", None)
        mon.equal(after, before, "the setup of a continued run", **kw)
        code, text = simulate(mon, kw)
        if not mon.equal(code, 0, "a continued run failed", output=text[-1500:], **kw):
            return
        old, log = log, history()
        mon.equal(log["start"], last, "start of a continued run", **kw)
        mon.equal(log["initial"], old["final"], "initial types of a continued run", **kw)
        mon.equal(log["rates"], old["rates"], "rates of a continued run", **kw)
        judge(c, mon, log, kw)
    mon.show({"rxns": c["rxns"], "analysis": c["setup"]["analysis"], "events": len(log["events"]), "continued": c["continue"]})


def namespace(name):
    with open(name) as f:
        ns = {}
        exec(compile(f.read(), name, "exec"), ns)
    ns.pop("__builtins__", None)
    return ns


def continued():
    """What kmc_continue.sh does up to the change of the start time."""
    os.mkdir("continue")
    for f in sorted(os.listdir(".")):
        if os.path.isfile(f) and f != "history.json":
            shutil.copy(f, "continue")
    os.chdir("continue")
    for f in glob.glob("auto_*"):
        if f != "auto_lattice_trajectory.py":
            os.remove(f)
    os.rename("auto_lattice_trajectory.py", "auto_lattice_trajectory_old.py")
    with open("kmc_configuration.py", "w") as f:
        f.write("from auto_lattice_trajectory_old import types as t;types = t[-1]")
