"""P26: lattice processes are expanded completely with the right rates and labels."""
import copy

from .. import kmc, ref

NEEDS_KMCLIB = True
RULE = ("a set of process definitions whose lattice processes and labels, requested in different ways, were compared "
        "one by one with an independent expansion; distinct (definitions, energies, temperature)")
MIN = {"processes compared": 4000, "labels compared": 4000, "redistribution": 60, "fast": 60, "collision theory": 15,
       "scripts": 60, "repeated": 200, "rates": 300}


def cases(rng, tier):
    for k in range(150 if tier == "quick" else 3000):
        c = kmc.case(rng, nproc=rng.randint(1, 7), steps=rng.randint(1, 4), special=rng.random() < 0.5, small=True,
                     narrow=rng.random() < 0.3)
        c["how"] = [rng.choice(["processes", "get", "mapping", "run", "run"]) for _ in range(4)]
        c["algo"] = "TST"
        if k % 6 == 0:
            gases = rng.sample(["CO", "O2", "H2"], 2)
            c["rxns"] = ["{}_g + *_s -> {}_s".format(g, g) for g in gases] + ["CO_s + *_t -> CO_t + *_s"]
            c["defs"] = {"{}_g".format(g): {"pressure": round(rng.uniform(0.01, 3), 4)} for g in gases}
            c["defs"].update({"*_s": {"site_name": "s", "type": "site", "total": 0.5},
                              "*_t": {"site_name": "t", "type": "site", "total": 0.5}})
            c["e"] = {"Gaf": [0.0, 0.3, 0.7], "dG": [round(rng.uniform(-1.5, -0.2), 3) for _ in range(3)]}
            for p in c["processes"]:
                p["reaction"] = rng.choice(c["rxns"])
            c["algo"] = "CT"
            c["setup"].update(unitcell_area=rng.choice([9e-20, 5e-20]), active_ratio=rng.choice([0.25, 4/9.0, 1.0]),
                              rate_algo="CT", corrector="ThermodynamicCorrector")
        elif rng.random() < 0.3:
            c["setup"]["rate_algo"] = "TST"
        yield c


def run(case, mon):
    m = kmc.model(case)
    want = kmc.expansion(case)
    wlabels = kmc.labels(case)
    if case["algo"] == "TST":
        rates = {r: kmc.tst_rates(case, r) for r in case["rxns"]}
    else:
        rates = ct_rates(case, m)
    mon.count("rates", len(rates))
    for k, how in enumerate(case["how"]):
        got = labels = None
        if how == "processes":
            got = m.solver.processes
        elif how == "get":
            got = m.solver.get_processes()
        elif how == "mapping":
            labels = m.solver.process_mapping
            if k == 0:      # nothing was asked for yet
                continue
        else:
            m.run(scripting=False)
            got, labels = m.processes, m.process_mapping
            import KMCLib
            compare(mon, case, KMCLib.HISTORY[-1]["model"].interactions.processes, want, rates, "run")
            mon.check(KMCLib.HISTORY[-1]["model"].interactions.implicit_wildcards is True, "wildcards are switched off")
        if got is not None:
            compare(mon, case, got, want, rates, how)
        if labels is None:
            labels = m.solver.process_mapping
        if all(h == "mapping" for h in case["how"][:k + 1]):
            continue        # the processes were never requested
        mon.count("labels compared", len(wlabels))
        mon.equal(list(labels), wlabels, "the labels of the processes", how=case["how"][:k + 1])
        if k:
            mon.count("repeated")
    mon.nontrivial([case["processes"], case["e"], case["T"]])
    mon.count("redistribution", sum(1 for p in case["processes"] if p.get("redist")))
    mon.count("fast", sum(1 for p in case["processes"] if p.get("fast")))
    mon.equal(m.process_dicts, case["processes"], "the definitions changed")
    # the script rebuilds the processes
    s = m.solver.script_processes(m.solver.processes)
    ns = {}
    exec(s, ns)
    mon.count("scripts")
    mon.equal(len(ns["processes"]), len(want), "number of processes in the script")
    plain = [(p, b, c, d, l) for p, b, c, d, l in want]
    compare(mon, case, ns["processes"], plain, rates, "script", flags=False)
    before = copy.deepcopy(s)
    mon.equal(m.solver.script_processes(m.solver.processes, script_name="procs.py"), before, "the script changed")
    with open("auto_procs.py") as f:
        mon.equal(f.read(), before, "the script file differs from the script")
    mon.show({"definitions": len(case["processes"]), "processes": len(want), "labels": len(wlabels),
              "algo": case["algo"]})


def ct_rates(case, m):
    """Collision theory rates at the actual pressure; the constants themselves are checked in P07."""
    out = {}
    for r, p in ((r, case["defs"].get(r.split(" ")[0], {}).get("pressure")) for r in case["rxns"]):
        out[r] = [ref.mpf(float(x)) for x in
                  m.solver.get_rxn_rates_CT(r, m.relative_energies, include_pressure=True)]
        if p is not None:
            bare = m.solver.get_rxn_rates_CT(r, m.relative_energies)[0]
            out[r][0] = ref.mpf(float(bare))*ref.mpf(p)
    return out


def compare(mon, case, got, want, rates, how, flags=True):
    if case["algo"] == "CT":
        mon.count("collision theory")
    if not mon.equal(len(got), len(want), "number of processes", how=how):
        return
    for n, (g, (p, b, c, direction, _label)) in enumerate(zip(got, want)):
        mon.count("processes compared")
        before, after = p["elements_before"], p["elements_after"]
        if direction == "<-":
            before, after = after, before
        where = dict(number=n, how=how, reaction=p["reaction"], direction=direction)
        mon.equal([list(map(float, x)) for x in g.coordinates], c, "coordinates of a process", **where)
        mon.equal([list(g.elements_before), list(g.elements_after)], [before, after], "elements of a process", **where)
        mon.equal(list(g.basis_sites), [b], "basis sites of a process", **where)
        mon.close(g.rate_constant, rates[p["reaction"]][0 if direction == "->" else 1], "rate of a process",
                  rtol=1e-9, **where)
        if flags:
            mon.equal(bool(g.fast), bool(p.get("fast")), "fast flag of a process", **where)
            mon.equal(bool(g.redist), bool(p.get("redist")), "redistribution flag of a process", **where)
            if p.get("redist"):
                mon.equal(g.redist_species, p["redist_species"], "redistributed species", **where)
