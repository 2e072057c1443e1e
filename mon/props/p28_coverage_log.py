"""P28: the coverage log of a lattice run is complete and correct at any buffer size."""
from .. import kmc

NEEDS_KMCLIB = True
RULE = ("a coverage file of a lattice run reloaded and compared record by record with the recorded history of the "
        "run; distinct (inputs, buffer size, interruption)")
MIN = {"files": 250, "records": 4000, "buffer flushed in the run": 60, "interrupted": 40, "several ratios": 20,
       "intervals": 40, "through the model": 100, "empty type not first": 20, "counter checks": 300}


def interval(rng, steps):
    if rng.random() < 0.5:
        return rng.choice([1, 1, 2, 3, 7])
    a = rng.randint(0, max(1, steps//2))
    b = rng.randint(a + 1, steps + 5)
    return [a, b, rng.randint(1, b - a)]


def cases(rng, tier):
    for k in range(120 if tier == "quick" else 2500):
        steps = rng.choice([3, 10, 20, 30, 60]) if k % 15 else rng.choice([501, 620])
        c = kmc.case(rng, nproc=rng.randint(1, 4), steps=steps, small=True)
        nb = len(c["setup"]["basis_sites"])
        if rng.random() < 0.35:
            ratios = [1.0/nb]*nb
        else:
            w = [rng.random()*(rng.random() < 0.8) for _ in range(nb)]
            tot = sum(w) or 1.0
            ratios = [x/tot*rng.choice([1.0, 0.9, 2.0]) for x in w] if sum(w) else [1.0/nb]*nb
        if nb == 1 and rng.random() < 0.2 and c["nsite"] % 2 == 0:
            ratios = [0.5, 0.25]
        c["setup"].update(analysis=["CoveragesAnalysis"], coverage_ratios=ratios)
        if steps < 500 and rng.random() < 0.6:
            c["setup"]["analysis_interval"] = [interval(rng, steps)]
        if rng.random() < 0.3:
            c["setup"]["start_time"] = round(rng.uniform(0, 5), 3)
        if rng.random() < 0.15:
            c["setup"]["time_limit"] = rng.uniform(0.001, 3)
        c["buffers"] = [rng.choice([1, 1, 2, 3, 5, 10, 100]) for _ in range(2)]
        c["stop"] = rng.randint(1, steps) if rng.random() < 0.6 and steps < 500 else None
        yield c


def expected(case, log, plugin=0):
    """[(step, time, coverages)] from the recorded history."""
    s = case["setup"]
    given = {st for k, st in log["given"] if k == plugin}
    frames = [(0, log["start"], log["initial"])]
    frames += [(st, t, types) for st, t, _n, types, _a in log["events"] if st in given]
    return [(st, t, coverage(s, types)) for st, t, types in frames]


def coverage(s, types):
    ratios = s["coverage_ratios"]
    groups = len(types)//len(ratios)
    out = []
    for t in s["possible_element_types"]:
        if t == s["empty_type"]:
            out.append(None)
            continue
        out.append(sum(ratios[i % len(ratios)] for i, x in enumerate(types) if x == t)/groups)
    rest = 1.0 - sum(x for x in out if x is not None)
    return [rest if x is None else x for x in out]


def compare(mon, case, ns, want, how, partial=None):
    mon.count("files")
    mon.nontrivial([case["setup"], case["types"], how])
    mon.equal(list(ns["possible_types"]), case["setup"]["possible_element_types"], "possible types in the file", how=how)
    n = len(ns["steps"])
    if partial is None:
        if not mon.equal(n, len(want), "number of records", how=how):
            return
    else:
        mon.count("interrupted")
        if not mon.check(n <= len(want) and (len(want) == 1 or n > len(want) - partial),
                         "records lost by an interruption", recorded=len(want), in_file=n, buffer=partial, how=how):
            return
    want = want[:n]
    mon.count("records", n)
    mon.equal(list(ns["steps"]), [w[0] for w in want], "steps in the file", how=how)
    mon.equal(len(ns["times"]), n, "number of times", how=how)
    for i, (a, b) in enumerate(zip(ns["times"], want)):
        mon.close(a, b[1], "time of a record", rtol=1e-9, record=i, how=how)
    mon.equal(len(ns["coverages"]), len(case["setup"]["possible_element_types"]), "number of coverage rows", how=how)
    for k, row in enumerate(ns["coverages"]):
        if not mon.equal(len(row), n, "length of a coverage row", how=how):
            continue
        for i, x in enumerate(row):
            mon.close(x, want[i][2][k], "coverage of a record", rtol=1e-9, atol=1e-9, record=i, how=how,
                      type=case["setup"]["possible_element_types"][k])


class Stop(Exception):
    pass


def run(case, mon):
    import KMCLib
    from scaks.solvers.kmc_plugins import CoveragesAnalysis
    from scaks.solvers.kmc_plugins.kmc_functions import collect_coverages
    s = case["setup"]
    mon.count("several ratios", len(set(s["coverage_ratios"])) > 1)
    mon.count("intervals", isinstance(s.get("analysis_interval"), list))
    mon.count("empty type not first", s["possible_element_types"].index(s["empty_type"]) > 0)
    # the way a user runs it
    m = kmc.model(case)
    m.run(scripting=False)
    log = KMCLib.HISTORY[-1]
    compare(mon, case, kmc.load("auto_coverages.py"), expected(case, log), "model")
    mon.count("through the model")
    if len(log["events"]) >= 500:
        mon.count("buffer flushed in the run")
    # the plugin with its own file and buffer, possibly stopped in the middle
    for k, size in enumerate(case["buffers"]):
        name = "cov_{}.py".format(k)
        stop = case["stop"] if k else None
        b = kmc.model(case)
        procs = b.solver.processes
        plugin = CoveragesAnalysis(b, filename=name, buffer_size=size)
        lm = KMCLib.KMCLatticeModel(b.configuration, b.sitesmap, KMCLib.KMCInteractions(procs))

        def hook(step):
            if stop is not None and step >= stop:
                raise Stop
        KMCLib.HOOKS["before_step"] = hook
        try:
            lm.run(b.solver.get_control_parameters(), analysis=[plugin])
            stopped = False
        except Stop:
            stopped = True
        finally:
            KMCLib.HOOKS["before_step"] = None
        log = KMCLib.HISTORY[-1]
        want = expected(case, log)
        if len(want) > size:
            mon.count("buffer flushed in the run")
        compare(mon, case, kmc.load(name), want, "buffer {}".format(size) + (" stopped" if stopped else ""),
                partial=size if stopped else None)
    # the counter by itself
    for _st, _t, _n, types, _a in log["events"][:5]:
        mon.count("counter checks")
        possible = list(s["possible_element_types"])
        got = collect_coverages(list(types), possible, list(s["coverage_ratios"]))
        groups = len(types)//len(s["coverage_ratios"])
        for x, t in zip(got, possible):
            w = sum(s["coverage_ratios"][i % len(s["coverage_ratios"])] for i, y in enumerate(types) if y == t)/groups
            mon.close(x, w, "counted coverage", atol=1e-12, type=t)
        mon.equal(len(got), len(possible), "number of counted coverages")
    mon.show({"records": len(want), "buffers": case["buffers"], "stop": case["stop"]})
