"""Workloads of the lattice simulations: random inputs and their construction."""
import copy

from . import gen, ref, util

NAMES = ["C", "O", "O_s", "CO", "H", "N2", "X1", "a-b", "Cl"]
EMPTY = ["V", "V", "V", "Vac", "*V", "E"]


def coordinate(rng, basis, start, far=1):
    """The offset from basis point `start` to a random site, with the basis point reached."""
    b = rng.randrange(len(basis))
    cell = [rng.randint(-far, far) for _ in range(3)]
    if rng.random() < 0.8:
        cell[2] = 0
    return [round(c + x - y, 6) + 0.0 for c, x, y in zip(cell, basis[b], basis[start])]


def coordinates(rng, basis, start, n):
    out = [[0.0, 0.0, 0.0]]
    guard = 0
    while len(out) < n and guard < 50:
        guard += 1
        c = coordinate(rng, basis, start)
        if all(max(abs(x - y) for x, y in zip(c, o)) > 1e-3 for o in out):
            out.append(c)
    return out


def geometry(rng, small=False):
    nb = rng.choice([1, 1, 2, 3])
    points = [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.5, 0.0], [0.5, 0.5, 0.25], [0.25, 0.75, 0.5]]
    basis = [points[0]] + rng.sample(points[1:], nb - 1)
    reps = [rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 1, 1, 2])]
    if not small and rng.random() < 0.3:
        reps[rng.randrange(2)] = rng.randint(3, 5)
    cell = [[round(rng.uniform(-1, 5), 3) for _ in range(3)] for _ in range(3)]
    for k in range(3):
        cell[k][k] = round(rng.uniform(2, 6), 3)
    return {"cell_vectors": cell, "basis_sites": basis, "repetitions": reps,
            "periodic": [rng.random() < 0.7 for _ in range(3)]}


def processes(rng, rxns, basis, types, empty, n, special=False, wild=0.1, lively=True):
    """Random process definitions; fast and redistribution ones come last."""
    out = []
    if lively:   # something can always happen
        out.append({"reaction": rng.choice(rxns), "coordinates_group": [[[0.0, 0.0, 0.0]]],
                    "elements_before": [empty], "elements_after": [rng.choice([t for t in types if t != empty])],
                    "basis_sites": sorted(rng.sample(range(len(basis)), rng.randint(1, len(basis))))})
    for _ in range(n):
        sites = rng.sample(range(len(basis)), rng.randint(1, len(basis)))
        size = rng.choice([1, 1, 2, 2, 3])
        group = []
        for _g in range(rng.choice([1, 1, 2, 3, 4])):
            c = coordinates(rng, basis, sites[0], size)
            if len(c) == size:
                group.append(c)
        if not group:
            continue
        before = [empty if rng.random() < 0.5 else rng.choice(types) for _ in range(size)]
        after = [rng.choice(types) for _ in range(size)]
        if rng.random() < wild and size > 1:
            k = rng.randrange(1, size)
            before[k] = after[k] = "*"
        p = {"reaction": rng.choice(rxns), "coordinates_group": group, "elements_before": before,
             "elements_after": after, "basis_sites": sites}
        if rng.random() < 0.3:
            p["description"] = "process {}".format(len(out))
        out.append(p)
    if special:
        for kind in rng.sample(["fast", "redist", "both", "slow"], rng.randint(1, 3)):
            p = copy.deepcopy(rng.choice(out))
            p["reaction"] = rng.choice(rxns)
            if kind in ("fast", "both"):
                p["fast"] = True
            if kind in ("redist", "both"):
                p["redist"] = True
                p["redist_species"] = rng.choice(types)
            if kind == "slow":
                p["fast"] = p["redist"] = False
            out.append(p)
        out.sort(key=lambda p: bool(p.get("fast")))
    return out


def case(rng, nproc=None, steps=None, special=False, small=False, narrow=True):
    rx, d = gen.mechanism(rng, overlap=0.1, repeat=0.1, n=rng.randint(1, 4), **gen.random_pool_args(rng))
    types = rng.sample(NAMES, rng.randint(1, 4))
    empty = rng.choice(EMPTY)
    types.insert(rng.randint(0, len(types)), empty)
    geo = geometry(rng, small)
    nsite = geo["repetitions"][0]*geo["repetitions"][1]*geo["repetitions"][2]*len(geo["basis_sites"])
    procs = processes(rng, rx, geo["basis_sites"], types, empty,
                      nproc if nproc is not None else rng.randint(1, 5), special)
    stypes = rng.sample(["P", "M", "top", "hcp"], rng.randint(1, 3))
    setup = dict(geo, possible_element_types=types, empty_type=empty, possible_site_types=stypes,
                 nstep=steps or rng.randint(5, 40), random_seed=rng.randint(1, 10**6))
    e = {"Gaf": [], "dG": []}
    T = round(rng.uniform(450, 550), 1) if narrow else round(rng.uniform(200, 1000), 1)
    for _ in rx:
        if narrow:
            ga, g = rng.uniform(1.0, 1.3), rng.uniform(-0.2, 0.2)
        else:
            g = rng.uniform(-1.0, 1.0)
            ga = max(g, 0.0) + (rng.uniform(0, 1.5) if rng.random() < 0.8 else 0.0)
        e["Gaf"].append(round(ga, 4))
        e["dG"].append(round(g, 4))
    return {"rxns": rx, "defs": d, "T": T, "e": e, "setup": setup, "processes": procs, "nsite": nsite,
            "types": [rng.choice(types) for _ in range(nsite)] if rng.random() < 0.6 else None,
            "site_types": [rng.choice(stypes) for _ in range(nsite)] if rng.random() < 0.5 else None}


def write_inputs(case):
    """The four input files; returns the arguments of parse_data."""
    util.write_values("k_energy.py", {"Ga": case["e"]["Gaf"], "dG": case["e"]["dG"]}, case["e"])
    util.write_values("k_processes.py", {"processes": case["processes"]}, case["processes"])
    kw = dict(energy_file="k_energy.py", processes_file="k_processes.py",
              configuration_file="k_configuration.py", sitesmap_file="k_sites.py")
    for key, var, name in (("types", "types", "k_configuration.py"), ("site_types", "site_types", "k_sites.py")):
        if case.get(key) is not None:
            util.write_values(name, {var: case[key]}, [case["e"], key])
    return kw


def model(case, parse=True, **extra):
    from scaks.models.kmc_model import KMCModel
    s = dict(rxn_expressions=list(case["rxns"]), species_definitions=copy.deepcopy(case["defs"]),
             temperature=case["T"], parser="KMCParser", solver="KMCSolver")
    s.update(copy.deepcopy(case["setup"]))
    s.update(extra)
    for k in ("repetitions", "periodic"):
        if k in s:
            s[k] = tuple(s[k])
    m = KMCModel(setup_dict=s, logger_level=50, file_handler_level=50, console_handler_level=50)
    util.close_logs(m)
    if parse:
        m.parser.parse_data(**write_inputs(case))
    return m


def parsed_energies(case):
    """The forward barrier, reverse barrier and reaction energy of each reaction."""
    out = {}
    for r, ga, g in zip(case["rxns"], case["e"]["Gaf"], case["e"]["dG"]):
        if abs(ga) < 1e-10 and g > 0:
            ga = g
        out[r] = (ga, ga - g, g)
    return out


def tst_rates(case, rxn):
    """Forward and reverse rates with gas pressures."""
    ga, gr, _ = parsed_energies(case)[rxn]
    st = ref.parse_rxn(rxn)
    out = []
    for e, state in ((ga, st[0]), (gr, st[-1])):
        p = ref.mpf(1)
        for f in state:
            if f["kind"] == "gas":
                p *= ref.mpf(case["defs"][f["key"]]["pressure"])**f["stoich"]
        out.append(ref.k_tst(e, case["T"])*p)
    return out


def expansion(case):
    """[(definition, basis site, coordinates, direction, label or None)] in order."""
    out = []
    for p in case["processes"]:
        for b in p["basis_sites"]:
            for c in p["coordinates_group"]:
                for direction in ("->", "<-"):
                    if direction == "<-" and p.get("redist"):
                        continue
                    label = None if p.get("fast") else "{}({})".format(p["reaction"], direction)
                    out.append((p, b, c, direction, label))
    return out


def labels(case):
    return [x[4] for x in expansion(case) if x[4] is not None]


def load(filename):
    with open(filename) as f:
        text = f.read()
    ns = {}
    exec(compile(text, filename, "exec"), {}, ns)
    return ns
