"""P27: lattice inputs reach the simulation unchanged and bad ones are rejected."""
import copy
import os

from .. import kmc

NEEDS_KMCLIB = True
RULE = ("a set of lattice inputs whose every part was read back from what the simulation received, or a damaged set "
        "that was refused before the simulation; distinct (lattice, types, control parameters) or damage")
MIN = {"inputs compared": 120, "control parameters": 1500, "refused": 600, "default files": 20, "default types": 30,
       "default sites": 50, "redistribution": 30, "analysis": 50, "scripts": 30, "rebuilt": 100, "large lattices": 8}

CONTROL = ["time_limit", "random_seed", "trajectory_dump_interval", "random_generator", "analysis_interval",
           "start_time", "extra_trajectories", "redistribution"]


def control(rng, n, names):
    s = {}
    for name in names:
        if name == "time_limit":
            s[name] = rng.choice([1e9, 0.5, float(rng.randint(1, 50)), 1e-3])
        elif name == "random_seed":
            s[name] = rng.randint(0, 2**31)
        elif name == "trajectory_dump_interval":
            s[name] = rng.randint(1, 1000)
        elif name == "random_generator":
            s[name] = rng.choice(["MT", "MINSTD", "RANLUX24", "RANLUNX48"])
        elif name == "start_time":
            s[name] = rng.choice([0.0, 2.5, round(rng.uniform(0, 9), 3)])
        elif name == "extra_trajectories":
            a = rng.randint(0, 50)
            s[name] = [a, a + rng.randint(1, 100)]
        elif name == "redistribution":
            s["do_redistribution"] = rng.random() < 0.7
            s["redistribution_interval"] = rng.randint(1, 100)
            s["fast_species"] = rng.sample(["C", "O", "V"], rng.randint(1, 2))
            s["nsplits"] = [rng.randint(1, 4) for _ in range(3)]
            s["distributor_type"] = rng.choice(["RandomDistributor", "ProcessRandomDistributor"])
        elif name == "analysis_interval":
            if n == 0 or rng.random() < 0.4:
                s[name] = rng.randint(1, 10)
            else:
                s[name] = [rng.randint(1, 9) if rng.random() < 0.5 else
                           rng.choice([[rng.randint(0, 5), rng.randint(10, 30), rng.randint(1, 5)], [3, 12, 9], [0, 1, 1]]) for _ in range(n)]
    return s


def enlarge(rng, c):
    """A lattice of thousands of sites, all of them given."""
    s = c["setup"]
    s["repetitions"] = type(s["repetitions"])([rng.randint(20, 45), rng.randint(20, 45), rng.randint(1, 2)])
    n = s["repetitions"][0]*s["repetitions"][1]*s["repetitions"][2]*len(s["basis_sites"])
    c["nsite"] = n
    c["types"] = [rng.choice(s["possible_element_types"]) for _ in range(n)]
    c["site_types"] = [rng.choice(s["possible_site_types"]) for _ in range(n)]


def cases(rng, tier):
    for k in range(150 if tier == "quick" else 3000):
        c = kmc.case(rng, nproc=rng.randint(1, 4), steps=rng.randint(1, 6))
        if k % 12 == 5:
            enlarge(rng, c)
        plugins = rng.sample(["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis"], rng.randint(0, 3))
        if plugins:
            c["setup"]["analysis"] = plugins
        c["setup"]["coverage_ratios"] = [round(1.0/len(c["setup"]["basis_sites"]), 4)]*len(c["setup"]["basis_sites"])
        c["setup"].update(control(rng, len(plugins), rng.sample(CONTROL, rng.randint(0, len(CONTROL)))))
        if rng.random() < 0.2:
            c["setup"].pop("random_seed", None)
        if rng.random() < 0.2:
            c["setup"].pop("nstep")
        for name in rng.sample(["cell_vectors", "periodic"], rng.choice([0, 0, 1])):
            c["setup"].pop(name)
        c["default_files"] = rng.random() < 0.3
        c["how"] = rng.choice(["file", "file", "no variable"])
        c["scripting"] = rng.random() < 0.5
        c["trajectory"] = rng.choice(["lattice", "xyz"])
        c["rng"] = rng.randrange(10**6)
        yield c


def damages(rng, case):
    """(what, function spoiling a process definition)"""
    types = case["setup"]["possible_element_types"]
    out = []
    for key in ("reaction", "coordinates_group", "elements_before", "elements_after", "basis_sites"):
        out.append(("no " + key, lambda p, key=key: p.pop(key)))
        for bad in (None, 3, {"a": 1}):
            out.append(("{} is {!r}".format(key, bad), lambda p, key=key, bad=bad: p.__setitem__(key, bad)))
    for key in ("coordinates_group", "elements_before", "elements_after", "basis_sites"):
        out.append((key + " is a string", lambda p, key=key: p.__setitem__(key, "VVV")))
    out.append(("unknown reaction", lambda p: p.__setitem__("reaction", p["reaction"] + " ")))
    out.append(("another reaction", lambda p: p.__setitem__("reaction", "Xe_g + *_s -> Xe_s")))
    other = next(x for x in ("Zz", "Q", "Vx") if x not in types)
    for key in ("elements_before", "elements_after"):
        def f(p, key=key):
            p[key][rng.randrange(len(p[key]))] = other
        out.append(("unknown element in " + key, f))

        def f(p, key=key):
            p[key][rng.randrange(len(p[key]))] = rng.choice([1, None, 2.0, [types[0]]])
        out.append(("element of the wrong type in " + key, f))
        out.append(("too many " + key, lambda p, key=key: p[key].append(types[0])))
        out.append(("too few " + key, lambda p, key=key: p[key].pop()))

    def coords(p):
        return p["coordinates_group"][rng.randrange(len(p["coordinates_group"]))]
    out.append(("coordinate of two numbers", lambda p: coords(p)[-1].pop()))
    out.append(("coordinate of four numbers", lambda p: coords(p)[-1].append(0.0)))
    out.append(("integer in a coordinate", lambda p: coords(p)[-1].__setitem__(rng.randrange(3), 1)))
    out.append(("text in a coordinate", lambda p: coords(p)[-1].__setitem__(rng.randrange(3), "0.0")))
    out.append(("tuple coordinate", lambda p: coords(p).__setitem__(0, (0.0, 0.0, 0.0))))
    out.append(("flat coordinates", lambda p: p.__setitem__("coordinates_group", [[0.0, 0.0, 0.0]])))

    def far(p):
        x = rng.choice([40.0, 120.0, -75.5])
        p["coordinates_group"] = [[[0.0, 0.0, 0.0], [x, 0.5, 0.0], [x + rng.choice([0.0, 3e-7]), 0.5, 0.0]]]
        for key in ("elements_before", "elements_after"):
            p[key] = (p[key]*3)[:3]
    out.append(("equivalent coordinates far away", far))

    def more(p):
        c = coords(p)
        dup = list(c[rng.randrange(len(c))])
        dup[rng.randrange(3)] += rng.choice([0.0, 2e-7, -2e-7])
        c.append(dup)
        n = len(c)
        p["coordinates_group"] = [c]
        p["elements_before"] = (p["elements_before"]*n)[:n]
        p["elements_after"] = (p["elements_after"]*n)[:n]
    out.append(("equivalent coordinates", more))

    def last(p):
        g = copy.deepcopy(p["coordinates_group"][0])
        g.append([9.0, 9.0, 0.0])
        p["coordinates_group"].append(g)
    out.append(("sets of different sizes", last))
    for bad in (0.0, "0", None, [0]):
        out.append(("basis site {!r}".format(bad), lambda p, bad=bad: p["basis_sites"].append(bad)))
    return out


def lattice(mon, lat, want, what):
    mon.equal([list(map(float, v)) for v in lat.unit_cell.cell_vectors], want["cell_vectors"], "cell vectors", of=what)
    mon.equal([list(map(float, v)) for v in lat.unit_cell.basis_points], want["basis_sites"], "basis points", of=what)
    mon.equal(list(lat.repetitions), list(want["repetitions"]), "repetitions", of=what)
    mon.equal(list(lat.periodic), list(want["periodic"]), "periodicity", of=what)


def parse(m, case):
    kw = kmc.write_inputs(case)
    if case["how"] == "no variable":
        for name, key in (("k_configuration.py", "types"), ("k_sites.py", "site_types")):
            if case[key] is None:
                with open(name, "w") as f:
                    f.write("other = 3\n")
    if case["default_files"]:
        for a, b in (("k_processes.py", "kmc_processes.py"), ("k_configuration.py", "kmc_configuration.py"),
                     ("k_sites.py", "kmc_sites.py")):
            if os.path.exists(a):
                os.rename(a, b)
        kw = {"energy_file": kw["energy_file"]}
    m.parser.parse_data(**kw)


def run(case, mon):
    import random
    import KMCLib
    import scaks.errors.error as err
    rng = random.Random(case["rng"])
    s = case["setup"]
    want = dict(cell_vectors=[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], periodic=[True]*3)
    want.update(s)
    m = kmc.model(case, parse=False)
    parse(m, case)
    if case["default_files"]:
        mon.count("default files")
    types = case["types"] if case["types"] is not None else [s["empty_type"]]*case["nsite"]
    stypes = case["site_types"] if case["site_types"] is not None else [s["possible_site_types"][0]]*case["nsite"]
    mon.count("default types", case["types"] is None)
    mon.count("default sites", case["site_types"] is None)
    mon.count("large lattices", case["nsite"] >= 400)
    m.run(scripting=case["scripting"], trajectory_type=case["trajectory"])
    log = KMCLib.HISTORY[-1]
    km = log["model"]
    mon.count("inputs compared")
    mon.nontrivial([s, case["types"], case["site_types"]])
    lattice(mon, km.configuration.lattice, want, "configuration")
    lattice(mon, km.sitesmap.lattice, want, "sites map")
    mon.equal(log["initial"], types, "initial types")
    mon.equal(list(km.configuration.possible_types), s["possible_element_types"], "possible types")
    mon.equal(km.sitesmap.types(), stypes, "site types")
    mon.equal(list(km.sitesmap.possible_types), s["possible_site_types"], "possible site types")
    mon.check(km.configuration is m.configuration and km.sitesmap is m.sitesmap,
              "the model reports other objects than those simulated")
    mon.equal(len(km.interactions.processes), len(kmc.expansion(case)), "number of processes simulated")
    # control parameters
    cp = dict(time_limit=s.get("time_limit", float("inf")), number_of_steps=s.get("nstep", 1),
              dump_interval=s.get("trajectory_dump_interval", 1), seed=s.get("random_seed"),
              rng_type=s.get("random_generator", "MT"), analysis_interval=s.get("analysis_interval"),
              start_time=s.get("start_time", 0.0), extra_traj=s.get("extra_trajectories"),
              do_redistribution=s.get("do_redistribution", False))
    if cp["do_redistribution"]:
        mon.count("redistribution")
        cp.update(redistribution_interval=s["redistribution_interval"], fast_species=s["fast_species"],
                  nsplits=s["nsplits"], distributor_type=s["distributor_type"], empty_element=s["empty_type"])
    got = {k: list(v) if isinstance(v, tuple) else v for k, v in log["cp"].kwargs.items()}
    mon.equal(sorted(got), sorted(cp), "control parameters given to the run")
    for k in cp:
        mon.count("control parameters")
        mon.equal(got.get(k), cp[k], "control parameter", name=k)
    # analysis
    names = s.get("analysis", [])
    mon.equal([type(a).__name__ for a in log["analysis"]], names, "analysis plugins of the run")
    mon.count("analysis", len(names))
    mon.equal(log["trajectory_type"], case["trajectory"], "trajectory type")
    mon.equal(log["trajectory_filename"], "auto_{}_trajectory.py".format(case["trajectory"]), "trajectory file")
    mon.equal(os.path.exists("auto_kmc_model.py"), case["scripting"], "model script")
    if case["scripting"]:
        mon.count("scripts")
        with open("auto_kmc_model.py") as f:
            text = f.read()
        mon.check("from KMCLib import *" in text and repr(types) in text, "the model script lacks the configuration")
    # rebuilt on request, always new
    for _ in range(2):
        mon.count("rebuilt")
        lattice(mon, m.parser.construct_lattice(), want, "rebuilt lattice")
    cfg = m.parser.parse_configuration(filename="k_configuration.py" if not case["default_files"] else None)
    mon.equal(cfg.types(), types, "rebuilt initial types")
    mon.check(cfg is not m.configuration, "a rebuilt configuration is the one being simulated")
    sm = m.parser.construct_sitesmap(filename="k_sites.py" if not case["default_files"] else None)
    mon.equal(sm.types(), stypes, "rebuilt site types")
    # refused inputs
    runs = len(KMCLib.HISTORY)
    for what, spoil in rng.sample(damages(rng, case), 5):
        c = copy.deepcopy(case)
        c["default_files"] = False
        spoil(c["processes"][rng.randrange(len(c["processes"]))])
        b = kmc.model(c)
        mon.raises(lambda: b.run(scripting=False) if rng.random() < 0.5 else b.solver.processes, err.SetupError,
                   "a damaged process definition was accepted", damage=what)
        mon.count("refused")
        mon.nontrivial("refused: " + what)
    for what in rng.sample(["too many site types", "too few site types", "unknown site type", "empty type"], 2):
        c = copy.deepcopy(case)
        c["default_files"] = False
        if what == "empty type":
            c["setup"]["empty_type"] = next(x for x in ("Zz", "Q", "Vx") if x not in s["possible_element_types"])
        else:
            c["site_types"] = list(stypes)
            if what == "unknown site type":
                c["site_types"][rng.randrange(case["nsite"])] = "nosite"
            elif what == "too few site types":
                c["site_types"].pop()
            else:
                c["site_types"].append(stypes[0])
        mon.raises(lambda: kmc.model(c), err.SetupError, "bad lattice input was accepted", damage=what)
        mon.count("refused")
        mon.nontrivial("refused: " + what)
    mon.equal(len(KMCLib.HISTORY), runs, "a refused input was simulated")
    mon.show({"lattice": {k: want[k] for k in ("repetitions", "periodic", "basis_sites")}, "control": cp})
