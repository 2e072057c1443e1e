"""P34: what a run reports in its log are the values of that run."""
import logging
import re

from .. import core, gen, kmc, ref, steady
from ..common import build as kbuild, energies, kinetics_case, write_twice, reference
from .p21_archive import solve

RULE = ("a table of the log parsed back and compared with the results of the run and an independent kinetics; "
        "distinct (mechanism, energies, route)")
MIN = {"rate constants": 60, "rates": 60, "reversibilities": 60, "turnovers": 40, "coverages": 40,
       "degrees of rate control": 10, "progress rows": 60, "given energies": 8, "final errors": 10,
       "more than ten rows": 6, "long reactions": 3}
CASE_TIMEOUT = 40
MAX_SKIP = 0.4
BUDGET = {"quick": 400}


def cases(rng, tier):
    for i in range(70 if tier == "quick" else 700):
        c = steady.case(rng, random_mechs=0.25)
        nm = ref.names(c["rxns"])
        c["override"] = rng.random() < 0.4
        c["xrc"] = bool(nm["gas"]) and i % 3 == 0
        c["gas"] = rng.choice(nm["gas"]) if nm["gas"] else None
        c["algo"] = "lsoda"
        start = rng.choice([0.0, 0.0, round(rng.uniform(0, 2), 3)])
        c["ode"] = {"start": start, "span": rng.choice([0.01, 0.05, 0.1]), "steps": rng.randint(5, 40)}
        c["interval"] = rng.choice([1, 2, 3, 7])
        c["file"] = rng.random() < 0.6
        c["kind"] = "run"
        yield c
    for i in range(16 if tier == "quick" else 160):
        c = kinetics_case(rng, n=rng.randint(11, 18) if i % 2 else None, coverages=1)
        if i % 3 == 0:
            write_twice(rng, c["rxns"], c["e"], c["e2"])
        c["kind"] = "tables"
        yield c


class Keep(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, level=logging.DEBUG)
        self.rows = []

    def emit(self, record):
        self.rows.append(record.getMessage())


NUM = r"([-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan))"


def pairs(messages, names, words):
    """The rows of the last table whose title holds the words: [(name, numbers)]."""
    for text in reversed(messages):
        lines = text.splitlines()
        for i, line in enumerate(lines):
            if all(w in line for w in words):
                out = []
                for row in lines[i + 1:]:
                    for n in sorted(names, key=len, reverse=True):
                        if row.strip().startswith(n):
                            nums = re.findall(NUM, row.strip()[len(n):])
                            out.append((n, [float(x) for x in nums]))
                            break
                return out
    return None


def indexed(messages, title):
    """The rows of the last table below a title: [(index, name, number)]."""
    for text in reversed(messages):
        if title in text:
            out = []
            for row in text[text.index(title):].splitlines():
                m = re.match(r"^\s*(\d+)\s+(.+?)\s*([-+]?\d\.\d{6,}e[-+]\d+|inf|nan)\s*$", row)
                if m:
                    out.append((int(m.group(1)), m.group(2), float(m.group(3))))
            return out
    return None


def table(mon, rows, names, values, what, rtol, atol=0.0, **kw):
    if not mon.check(rows is not None, "no table of the " + what, **kw):
        return
    if not mon.equal([r[1] for r in rows], list(names), "names in the table of the " + what, **kw):
        return
    mon.equal([r[0] for r in rows], list(range(len(names))), "numbers in the table of the " + what, **kw)
    for r, v in zip(rows, values):
        mon.count(what)
        mon.close(r[2], float(v), "value in the table of the " + what, rtol=rtol, atol=atol, name=r[1], **kw)


def run(case, mon):
    c = case
    nm = ref.names(c["rxns"])
    logger = logging.getLogger("model")
    if c["kind"] == "run":
        m = steady.build(c, tolerance=1e-20, max_rootfinding_iterations=60, ode_output_interval=c["interval"])
    else:
        m = kbuild(c)
    keep = Keep()
    logger.handlers = [keep]
    logger.setLevel(logging.INFO)
    try:
        (observed if c["kind"] == "run" else tables)(c, m, mon, nm, keep)
    finally:
        logger.handlers = []


def observed(c, m, mon, nm, keep):
    own, other = steady.relative(c["rxns"], c["abs"]), steady.relative(c["rxns"], c["abs2"])
    given = other if c["override"] else None
    K = steady.kinetics(c, given or own)
    solve(lambda: m.run(init_cvgs=list(c["c0"]), coarse_guess=False, relative_energies=given))
    x = m.steady_state_coverages
    if c["override"]:
        mon.count("given energies")
    log = list(keep.rows)
    kw = dict(rxns=c["rxns"], override=c["override"])
    mon.nontrivial([c["rxns"], c["abs"], c["override"]])
    rf, rr = K.rates(x)
    two(log, c, K, rf, rr, mon, kw)
    # turnovers, reversibilities and coverages
    table(mon, indexed(log, "Turnover Frequencies"), nm["gas"], m.TOFs[:len(nm["gas"])], "turnovers", 1e-12, 1e-300, **kw)
    if all(abs(a) > 1e-290 for a in rf):
        table(mon, indexed(log, "Reversibilities"), c["rxns"], m.reversibilities, "reversibilities", 1e-12, **kw)
    rows = indexed(log, "Steady State Coverages")
    if rows is not None:
        table(mon, rows, nm["ads"], x, "coverages", 1e-12, 1e-300, **kw)
    errors = [float(t.split("=")[1]) for t in log if re.match(r"^error = [-+.\deinf]+$", t.strip())]
    if errors:
        mon.count("final errors")
        mon.check(0 <= errors[-1] <= 1.001e-20, "the last error in the log is above the tolerance", got=errors[-1], **kw)
    # degrees of rate control
    if c["xrc"]:
        del keep.rows[:]
        try:
            got = m.solver.get_single_XRC(c["gas"], epsilon=1e-5, relative_energies=given)
        except (steady.GiveUp, ValueError, ZeroDivisionError, TypeError):
            got = None
        if got is not None:
            table(mon, indexed(keep.rows, "Degree of Rate Control for " + c["gas"] + ":"), c["rxns"], got,
                  "degrees of rate control", 1e-12, 1e-300, **kw)
    progress(c, m, mon, nm, keep, kw)
    mon.show({"rxns": c["rxns"], "tables": sum("----" in t for t in log)})


def two(log, c, K, rf, rr, mon, kw):
    """The tables of rate constants and rates."""
    for words, what, fs, rs in ((("k_forward", "k_reverse"), "rate constants", K.kf, K.kr),
                                (("R_forward", "R_reverse"), "rates", rf, rr)):
        rows = pairs(log, c["rxns"], words)
        if not mon.check(rows is not None, "no table of the " + what, **kw):
            continue
        if not mon.equal([r[0] for r in rows], list(c["rxns"]), "reactions in the table of the " + what, **kw):
            continue
        for (rxn, nums), f, r in zip(rows, fs, rs):
            mon.count(what)
            ok = len(nums) == 2
            if not mon.check(ok, "numbers in the table of the " + what, got=nums, **kw):
                continue
            for got, want, d in zip(nums, (f, r), ("forward", "reverse")):
                if abs(want) < 1e-290 or abs(want) > 1e290:
                    continue
                mon.close(got, float(want), "value in the table of the " + what, rtol=2e-4, rxn=rxn, direction=d, **kw)


def tables(c, m, mon, nm, keep):
    """The tables of many or long reactions, at coverages as they are."""
    K, x, s = reference(c, energies(m)), tuple(c["cvgs"][0]), m.solver
    s.get_rate_constants(log=True)
    rf, rr = s.get_rates(x, log=True)
    tofs = s.get_tof(x)
    log = list(keep.rows)
    kw = dict(rxns=c["rxns"])
    mon.nontrivial([c["rxns"], c["e"]])
    mon.count("more than ten rows", len(c["rxns"]) > 10)
    mon.count("long reactions", sum(len(r) > 70 for r in c["rxns"]))
    wf, wr = K.rates(x)
    two(log, c, K, wf, wr, mon, kw)
    table(mon, indexed(log, "Turnover Frequencies"), nm["gas"], tofs[:len(nm["gas"])], "turnovers", 1e-12, 1e-300, **kw)
    if all(abs(a) > 1e-290 for a in wf):
        got = s.get_reversibilities(rf, rr)
        table(mon, indexed(keep.rows, "Reversibilities"), c["rxns"], got, "reversibilities", 1e-12, **kw)


def progress(c, m, mon, nm, keep, kw):
    """The rows of the integration against the recorded trajectory."""
    o = c["ode"]
    del keep.rows[:]
    end = o["start"] + o["span"]*o["steps"]
    m.solver.solve_ode(time_start=o["start"], time_end=end, time_span=o["span"], traj_output=True,
                       initial_cvgs=[0.0]*len(nm["ads"]))
    ns = kmc.load("auto_ode_coverages.py")
    rows = []
    for t in keep.rows:
        g = re.match(r"^\s*([-\d.]+)%\s*([-\d.]+)((?:\s+[-+\d.e]+)*)\s*$", t)
        if g:
            rows.append((float(g.group(1)), float(g.group(2)), [float(v) for v in g.group(3).split()]))
    mon.equal(len(rows), len(ns["times"]), "number of progress rows", interval=c["interval"], **o)
    titles = [t for t in keep.rows if t.split()[:2] == ["process", "time(s)"]]
    if mon.check(titles, "no title of the progress rows", **o):
        mon.equal(titles[-1].split()[2:], list(nm["ads"]), "names over the progress rows", **kw)
    for (p, t, y), wt, wy in zip(rows, ns["times"], ns["coverages"]):
        mon.count("progress rows")
        mon.close(t, wt, "time of a progress row", atol=1e-5, **o)
        mon.close(p, 100*(wt - o["start"])/(end - o["start"]), "progress in percent", atol=0.02, **o)
        if mon.equal(len(y), len(wy), "coverages of a progress row", **kw):
            for a, b in zip(y, wy):
                mon.close(a, b, "coverage of a progress row", rtol=1e-6, atol=1e-300, **kw)
