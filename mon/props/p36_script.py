"""P36: a scripted run ends in the steady state of its setup file, or in a failure that archives none."""
import os
import pickle
import shutil
import signal
import subprocess
import sys

from .. import core, gen, ref, steady, util
from ..core import REPO
from .p33_ranks import recorded, rows

RUNS_SCRIPTS = True
RULE = ("a run of the micro kinetic run script in a directory of its own, its exit status, archive, trajectory and log judged "
        "by independent kinetics; distinct (setup, energies, number of ranks)")
MIN = {"scripts run": 14, "solved": 10, "archived values": 60, "trajectory rows": 3000, "failures": 6, "repeated": 1}
CASE_TIMEOUT = 150
MAX_SKIP = 0.4
BUDGET = {"quick": 420}
NAMES = ["steady_state_coverages", "steady_state_error", "rates", "net_rates", "reversibilities", "tofs"]
SCRIPT = os.path.join(REPO, "scripts", "mkm_run", "run.py")
FAULTS = ["unbalanced", "no energies", "short energies", "unknown solver", "no pressure", "syntax", "no setup"]


def cases(rng, tier):
    for i in range(30 if tier == "quick" else 200):
        c = steady.case(rng, random_mechs=0.25, prec=50)
        c["c0"] = None
        c["ranks"] = [1, 1, 2, 1, 3][i % 5]
        c["fault"] = rng.choice(FAULTS) if i % 3 == 2 else None
        c["names"] = rng.choice([None, NAMES, NAMES, rng.sample(NAMES, 3)])
        c["relative"] = rng.random() < 0.3
        c["style"] = rng.choice(["literal", "computed"])
        c["again"] = rng.random() < 0.4
        c["tol"] = rng.choice([1e-10, 1e-15])
        c["every"] = rng.choice([1, 3, 10])
        yield c


def setup_text(c):
    rx, d = list(c["rxns"]), c["defs"]
    fault = c["fault"]
    if fault == "unbalanced":
        rx[-1] = rx[-1] + " + H2_g"
        d = dict(d, H2_g={"pressure": 1.0})
    if fault == "no pressure":
        for g in ref.names(rx)["gas"][:1]:
            d = dict(d)
            del d[g]
    text = "# a setup file\n"
    if c["style"] == "computed":
        text += "rxn_expressions = []\nfor r in {!r}:\n    rxn_expressions.append(r)\nspecies_definitions = dict({!r})\n".format(rx, d)
        text += "import math\ndef scaled(t):\n    return t*math.cos(0.0)\ntemperature = scaled({!r})\n".format(c["T"])
    else:
        text += "rxn_expressions = {!r}\nspecies_definitions = {!r}\ntemperature = {!r}\n".format(rx, d, c["T"])
    text += "parser = {!r}\nsolver = {!r}\n".format("RelativeEnergyParser" if c["relative"] else "AbsoluteEnergyParser",
                                                  "NoSolver" if fault == "unknown solver" else "SteadyStateSolver")
    text += "decimal_precision = 50\ntolerance = {!r}\nmax_rootfinding_iterations = 60\node_output_interval = {}\n".format(c["tol"], c["every"])
    if c["names"] is not None:
        text += "archived_variables = {!r}\n".format(c["names"])
    if fault == "syntax":
        text += "temperature = = 3\n"
    return text


def given(c):
    """The relative energies of the case."""
    e = steady.relative(c["rxns"], c["abs"])
    if not c["relative"]:
        return e
    out = {"Gaf": [], "dG": [], "Gar": []}
    for a, d in zip(e["Gaf"], e["dG"]):
        a, d = round(a, 6), round(d, 6)
        if abs(a) < 1e-10 and d > 0:
            a = d
        out["Gaf"].append(a)
        out["dG"].append(d)
        out["Gar"].append(a - d)
    return out


def write_energies(c):
    if c["fault"] == "no energies":
        return
    if c["relative"]:
        e = given(c)
        n = len(c["rxns"]) - (c["fault"] == "short energies")
        util.write_values("rel_energy.py", {"Ga": e["Gaf"][:n], "dG": e["dG"]}, c["rxns"])
    else:
        a = dict(c["abs"])
        if c["fault"] == "short energies":
            a.pop(sorted(k for k in a if not k.startswith("*"))[0])
        util.write_values("abs_energy.py", {"absolute_energies": a}, c["rxns"])


def launch(c):
    """The exit status and output of the script, None if it takes too long."""
    env = dict(os.environ, **core.warm_environment(), PYTHONPATH=REPO, HOME=os.path.abspath(".."),
               TMPDIR=os.path.abspath(".."), MPLBACKEND="Agg")
    cmd = [sys.executable, SCRIPT]
    if c["ranks"] > 1:
        cmd = [shutil.which("mpirun"), "--allow-run-as-root", "--oversubscribe", "-np", str(c["ranks"])] + cmd
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out = p.communicate(timeout=45)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None
    return p.returncode, out.decode(errors="replace")


def usable(n):
    """Whether real ranks can be started here."""
    exe = shutil.which("mpirun")
    if not exe:
        return False
    try:
        p = subprocess.run([exe, "--allow-run-as-root", "--oversubscribe", "-np", str(n), sys.executable, "-c",
                            "from mpi4py import MPI; print('R', MPI.COMM_WORLD.size)"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=40, env=dict(os.environ, HOME=os.getcwd(), TMPDIR=os.getcwd()))
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0 and p.stdout.decode().count("R %d" % n) == n


def archives(c):
    names = ["data.pkl"] if c["ranks"] == 1 else [os.path.join("data", "data_%d.pkl" % r) for r in range(c["ranks"])]
    out = []
    for n in names:
        if os.path.exists(n):
            with open(n, "rb") as f:
                out.append(pickle.load(f))
        else:
            out.append(None)
    return out


def logs(c):
    return ["out.log"] if c["ranks"] == 1 else [os.path.join("log", "out_%d.log" % r) for r in range(c["ranks"])]


def run(case, mon):
    c = case
    if c["ranks"] > 1 and not usable(c["ranks"]):
        mon.count("ranks not usable")
        c["ranks"] = 1
    os.mkdir("job")
    os.chdir("job")
    if c["fault"] != "no setup":
        with open("model.mkm", "w") as f:
            f.write(setup_text(c))
    write_energies(c)
    keep = {"notes.txt": "mine", "manual_auto_1.py": "x = 1\n", "queue.log": "mine", "out.log.old": "mine", "profile.pkl": "mine",
            "automatic.txt": "mine", "model.mkm.bak": "mine"}
    for n, t in keep.items():
        with open(n, "w") as f:
            f.write(t)
    got = launch(c)
    kw = dict(rxns=c["rxns"], fault=c["fault"], ranks=c["ranks"])
    if got is None:
        raise core.Skip("takes too long")
    code, text = got
    mon.count("scripts run")
    mon.nontrivial([c["rxns"], c["abs"], c["ranks"], c["fault"], c["relative"]])
    for n, t in keep.items():
        mon.check(os.path.exists(n) and open(n).read() == t, "the script touched a file that is not its own", file=n, **kw)
    if c["fault"]:
        mon.count("failures")
        mon.check(code != 0, "a faulty setup was run successfully", output=text[-300:], **kw)
        for a in archives(c):
            mon.check(not a or "steady_state_coverages" not in a, "a failed run archived a steady state", got=str(a)[:300], **kw)
        return
    if code != 0 and any(w in text for w in ("ZeroDivisionError", "matrix is numerically singular", "unexpected array size", "math domain error",
                                             "GiveUp", "Overflow", "cannot convert inf or nan", "in LU_decomp")):
        raise core.Skip("not solved")
    if not mon.equal(code, 0, "the script failed", output=text[-1500:], **kw):
        return
    check_results(c, mon, kw)
    if c["again"] and c["ranks"] == 1:
        first = archives(c)
        got = launch(c)
        if got is not None and mon.equal(got[0], 0, "the script failed the second time", output=got[1][-600:], **kw):
            mon.count("repeated")
            mon.check(str(archives(c)) == str(first), "a repeated run gives other results", **kw)
            check_results(c, mon, kw)


def check_results(c, mon, kw):
    e = given(c)
    K = steady.kinetics(c, e)
    ads, gas = ref.names(c["rxns"])["ads"], ref.names(c["rxns"])["gas"] + ref.names(c["rxns"])["liquid"]
    want = c["names"] if c["names"] is not None else ["steady_state_coverages"]
    # the transient
    here = [os.path.join(d, n) for d, _, fs in os.walk(".") for n in fs]
    tr = [n for n in here if n.endswith(".py") and os.path.basename(n) not in ("manual_auto_1.py", "rel_energy.py", "abs_energy.py")
          and recorded(n)]
    mon.equal(len(tr), c["ranks"], "number of recorded transients", files=tr, **kw)
    for n in tr:
        ts, ys = rows(n)
        if not mon.check(isinstance(ys, list) and len(ts) == len(ys) > 0, "a transient does not reload", file=n, got=str(ys)[:200], **kw):
            continue
        mon.count("trajectory rows", len(ts))
        mon.check(all(a < b for a, b in zip(ts, ts[1:])), "times of the transient", file=n, **kw)
        gaps = [b - a for a, b in zip(ts, ts[1:])]
        mon.check(all(abs(g - gaps[0]) < 1e-9 for g in gaps), "the transient is not recorded at equal intervals", file=n, **kw)
        mon.check(all(len(y) == len(ads) for y in ys), "coverages of the transient", file=n, **kw)
    # what was archived
    for r, a in enumerate(archives(c)):
        if not mon.check(a is not None, "nothing was archived", rank=r, **kw):
            continue
        mon.equal(sorted(a), sorted(set(want)), "archived variables", rank=r, **kw)
        mon.count("archived values", len(a))
        x = a.get("steady_state_coverages")
        if x is None:
            continue
        mon.count("solved")
        steady.physical(mon, c, x, slack=ref.mpf(10)**-25)
        val, scale = K.dtheta(x)
        resid, noise = max(abs(v) for v in val), ref.mpf(10)**-14*max(scale)
        mon.check(resid <= c["tol"]*(1 + 1e-6) + noise, "the archived coverages are no steady state of the setup",
                  residual=str(resid), rank=r, **kw)
        rf, rr = K.rates(x)
        big = max(list(map(abs, rf)) + list(map(abs, rr)))
        if "rates" in a:
            for got, w in zip(a["rates"], (rf, rr)):
                mon.equal(len(got), len(w), "number of archived rates", **kw)
                for g, v in zip(got, w):
                    mon.close(ref.conv(g), v, "an archived rate", rtol=1e-9, atol=ref.mpf(10)**-12*big, **kw)
        if "net_rates" in a:
            for g, v, b in zip(a["net_rates"], rf, rr):
                mon.close(ref.conv(g), v - b, "an archived net rate", rtol=1e-9, atol=ref.mpf(10)**-12*(abs(v) + abs(b)), **kw)
        if "reversibilities" in a:
            for g, v, b in zip(a["reversibilities"], rf, rr):
                mon.close(float(g), float(b/v), "an archived reversibility", rtol=1e-6, atol=1e-12, **kw)
        if "tofs" in a:
            mon.equal(len(a["tofs"]), len(gas), "number of archived turnover frequencies", **kw)
            for sp, g in zip(gas, a["tofs"]):
                v = sum(K.net_stoich(i, sp)*(rf[i] - rr[i]) for i in range(len(rf)))
                mon.close(ref.conv(g), v, "an archived turnover frequency", gas=sp, rtol=1e-9, atol=ref.mpf(10)**-12*big, **kw)
        if "steady_state_error" in a:
            mon.check(ref.conv(a["steady_state_error"]) <= c["tol"], "archived error above the tolerance", **kw)
    first = archives(c)[0]
    for a in archives(c)[1:]:
        mon.equal(str(a), str(first), "the ranks archived different results of one setup", **kw)
    for n in logs(c):
        mon.check(os.path.exists(n) and os.path.getsize(n) > 0 and "Traceback" not in open(n).read(), "the log of a successful run",
                  file=n, **kw)
    mon.show({"rxns": c["rxns"], "ranks": c["ranks"], "archived": sorted(first or {})})
