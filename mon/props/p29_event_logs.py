"""P29: event, frequency and turnover logs count every executed event exactly once."""
import re

from .. import kmc
from .p28_coverage_log import interval

NEEDS_KMCLIB = True
RULE = ("a frequency, turnover or event file of a lattice run reloaded and compared with the recorded history of the "
        "run; distinct (inputs, plugin, buffer size, interruption)")
MIN = {"frequency files": 100, "turnover files": 200, "turnover intervals": 800, "event files": 180, "event tables": 2500,
       "interrupted": 40, "labels shared by processes": 60, "late start": 10, "reverse executed": 200,
       "flushed in the run": 20, "fast processes": 5}


def cases(rng, tier):
    for k in range(110 if tier == "quick" else 2500):
        steps = rng.choice([3, 10, 20, 30, 60]) if k % 18 else rng.choice([200, 300])
        c = kmc.case(rng, nproc=rng.randint(1, 4), steps=steps, small=True, special=rng.random() < 0.3)
        s = c["setup"]
        for p in c["processes"]:
            p.pop("redist", None)
        if rng.random() < 0.5:      # something that can happen in both directions
            p = dict(c["processes"][0])
            c["processes"].insert(0, dict(p, reaction=rng.choice(c["rxns"])))
        s["analysis"] = rng.sample(["FrequencyAnalysis", "TOFAnalysis"], 2) + ["EventAnalysis"]
        if rng.random() < 0.5:
            s["analysis_interval"] = [interval(rng, steps), interval(rng, steps), 1]
        if rng.random() < 0.3:
            s["start_time"] = round(rng.uniform(0.1, 5), 3)
        s["tof_start"] = rng.choice([0, 0, 1, rng.randint(1, steps), steps + 5])
        # total rate of a small lattice: about 1e-2 .. 1e2 per second
        s["tof_interval"] = float("%.3g" % 10**rng.uniform(-4, 1.5))
        c["buffers"] = [rng.choice([1, 1, 2, 3, 5, 10, 100]) for _ in range(2)]
        c["stop"] = rng.randint(1, steps) if rng.random() < 0.7 and steps < 100 else None
        yield c


class Stop(Exception):
    pass


def given(log, k):
    steps = {st for n, st in log["given"] if n == k}
    return [e for e in log["events"] if e[0] in steps]


def frequency(mon, case, log, k, ns, labels, nproc):
    s = case["setup"]
    ev = given(log, k)
    counts = [0]*nproc
    steady = [0]*nproc
    first = last = None
    for st, t, n, _types, _a in ev:
        counts[n] += 1
        if st >= s["tof_start"]:
            steady[n] += 1
            first = t if first is None else first
            last = t
    mon.count("frequency files")
    mon.count("late start", any(st < s["tof_start"] for st, *_ in ev) and first is not None)
    mon.equal(list(ns["process_occurencies"]), counts, "occurrences of the processes")
    mon.equal(sum(ns["process_occurencies"]), len(ev), "total of the occurrences")

    def by_label(c):
        out = dict.fromkeys(labels, 0)
        for n, l in zip(c, labels):
            out[l] += n
        return out
    mon.count("labels shared by processes", len(set(labels)) < len(labels))
    mon.count("reverse executed", sum(n for n, l in zip(counts, labels) if l.endswith("(<-)")))
    mon.equal(ns["reaction_occurencies"], by_label(counts), "occurrences of the reactions")
    mon.equal(ns["steady_reaction_occurencies"], by_label(steady), "occurrences of the reactions from the start step",
              start=s["tof_start"])
    span = last - first if first is not None else 0.0
    want = {l: (n/(span*case["nsite"]) if span > 0 else 0.0) for l, n in by_label(steady).items()}
    mon.equal(sorted(ns["reaction_rates"]), sorted(want), "reactions with a rate")
    for l in want:
        mon.close(ns["reaction_rates"].get(l), want[l], "rate of a reaction", rtol=1e-7, reaction=l)


def turnover(mon, case, log, k, ns, labels, nproc, partial=None):
    s = case["setup"]
    start, counts, want = log["start"], [0]*nproc, []
    for _st, t, n, _types, _a in given(log, k):
        counts[n] += 1
        if t - start > s["tof_interval"]:
            want.append((start, [c/(case["nsite"]*(t - start)) for c in counts]))
            start, counts = t, [0]*nproc
    mon.count("turnover files")
    mon.equal(list(ns["processes"]), labels, "process labels of the turnover file")
    n = len(ns["times"])
    if partial is None:
        mon.equal(n, len(want), "number of turnover intervals")
    else:
        mon.count("interrupted")
        mon.check(n <= len(want) and n > len(want) - partial, "turnover intervals lost by an interruption",
                  in_file=n, recorded=len(want), buffer=partial)
    mon.equal(len(ns["tofs"]), n, "number of turnover records")
    mon.count("flushed in the run", n > 0 and "times_1" in ns)
    for i, (t, row, w) in enumerate(zip(ns["times"], ns["tofs"], want)):
        mon.count("turnover intervals")
        mon.close(t, w[0], "start of a turnover interval", rtol=1e-9, atol=1e-12, interval=i)
        if mon.equal(len(row), nproc, "processes in a turnover record"):
            for p, (x, y) in enumerate(zip(row, w[1])):
                mon.close(x, y, "turnover of a process", rtol=1e-7, interval=i, process=p)


ROW = re.compile(r"^\|\s*(-> )?\((\d+)\) (.*?)\s*\|\s*(\d+)\s*\|\s*(\S+)\s*\|\s*(\S+)%\s*\|$")


def events(mon, case, log, k, text, labels, rates, partial=None):
    head, *tables = text.split("\nStep: ")
    mon.count("event files")
    for i, l in enumerate(labels):
        mon.check(re.search(r"\|\s*{}\s*\| {}\s*\|".format(i, re.escape(l)), head) is not None,
                  "a process is missing from the list of the event file", process=i, label=l)
    ev = given(log, k)
    want = list(zip(ev, ev[1:]))
    n = len(tables)
    if partial is None:
        mon.equal(n, len(want), "number of event tables")
    else:
        mon.count("interrupted")
        mon.check(n <= len(want) and n > len(want) - partial, "events lost by an interruption", in_file=n,
                  recorded=len(want), buffer=partial)
    for tab, (prev, cur) in zip(tables, want):
        mon.count("event tables")
        lines = tab.split("\n")
        mon.equal(lines[0].strip(), str(prev[0]), "step of an event table")
        avail = prev[4][:len(labels)]
        mon.check("sites number: {}".format(sum(avail)) in lines[1], "available sites of an event table",
                  got=lines[1], want=sum(avail))
        rows = [m for m in map(ROW.match, lines) if m]
        mon.equal([int(m.group(2)) for m in rows], list(range(len(labels))), "processes of an event table")
        mon.equal([m.group(3) for m in rows], labels, "labels of an event table")
        mon.equal([int(m.group(2)) for m in rows if m.group(1)], [cur[2]], "process marked in an event table",
                  step=cur[0])
        total = sum(a*r for a, r in zip(prev[4], rates))
        for m, a, r in zip(rows, avail, rates):
            mon.equal(int(m.group(4)), a, "available sites of a process", step=prev[0])
            mon.close(float(m.group(5)), a*r, "total rate of a process", rtol=6e-3, step=prev[0])
            mon.close(float(m.group(6)), 100*a*r/total, "probability of a process", rtol=0, atol=0.0051, step=prev[0])


def run(case, mon):
    import KMCLib
    from scaks.solvers.kmc_plugins import EventAnalysis, FrequencyAnalysis, TOFAnalysis
    s = case["setup"]
    labels = kmc.labels(case)
    nproc = len(kmc.expansion(case))
    mon.count("fast processes", nproc > len(labels))
    m = kmc.model(case)
    m.run(scripting=False)
    log = KMCLib.HISTORY[-1]
    rates = [float(p.rate_constant) for p in log["model"].interactions.processes]
    mon.nontrivial([s, case["types"], case["processes"]])
    for k, name in enumerate(s["analysis"]):
        if name == "FrequencyAnalysis":
            frequency(mon, case, log, k, kmc.load("auto_frequency.py"), labels, nproc)
        elif name == "TOFAnalysis":
            turnover(mon, case, log, k, kmc.load("auto_tofs.py"), labels, nproc)
        else:
            with open("auto_events.txt") as f:
                events(mon, case, log, k, f.read(), labels, rates)
    # own files and buffers, possibly stopped in the middle
    for j, size in enumerate(case["buffers"]):
        stop = case["stop"] if j else None
        b = kmc.model(case)
        b.run(scripting=False)          # the labels are known after a run
        b.parser.parse_data(**kmc.write_inputs(case))
        plugins = [TOFAnalysis(b, filename="t{}.py".format(j), buffer_size=size),
                   FrequencyAnalysis(b, filename="f{}.py".format(j)),
                   EventAnalysis(b, filename="e{}.txt".format(j), buffer_size=size)]
        lm = KMCLib.KMCLatticeModel(b.configuration, b.sitesmap, KMCLib.KMCInteractions(b.processes))

        def hook(step):
            if stop is not None and step >= stop:
                raise Stop
        KMCLib.HOOKS["before_step"] = hook
        cp = b.solver.get_control_parameters()
        if case["setup"].get("analysis_interval"):
            cp.kwargs["analysis_interval"] = [cp.kwargs["analysis_interval"][1], cp.kwargs["analysis_interval"][0], 1]
        try:
            lm.run(cp, analysis=plugins)
            stopped = False
        except Stop:
            stopped = True
        finally:
            KMCLib.HOOKS["before_step"] = None
        log = KMCLib.HISTORY[-1]
        partial = size if stopped else None
        mon.nontrivial([s, case["types"], case["processes"], size, stopped])
        turnover(mon, case, log, 0, kmc.load("t{}.py".format(j)), labels, nproc, partial)
        if not stopped:
            frequency(mon, case, log, 1, kmc.load("f{}.py".format(j)), labels, nproc)
        with open("e{}.txt".format(j)) as f:
            events(mon, case, log, 2, f.read(), labels, rates, partial)
    mon.show({"labels": len(labels), "events": len(log["events"]), "tof_interval": s["tof_interval"]})
