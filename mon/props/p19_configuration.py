"""P19: invalid configuration is rejected, accepted configuration is read-only."""
import copy

from .. import gen, ref, util

NEEDS_KMCLIB = True
RULE = "a setup value that was accepted or refused as specified; distinct (model class, parameter, value)"
MIN = {"accepted": 300, "refused": 300, "reassignments refused": 300, "defaults": 300, "properties protected": 300,
       "copies": 30, "components": 30}

MODEL = "scaks.models.micro_kinetic_model:MicroKineticModel"
KMC = "scaks.models.kmc_model:KMCModel"

# name -> (kind, candidates or entry type, documented default)
COMMON = {"temperature": ("float", None, 298.0), "rate_algo": ("str", None, "TST"),
          "unitcell_area": ("float", None, 0.0), "active_ratio": ("float", None, 1.0)}
MICRO = dict(COMMON, decimal_precision=("int", None, 100), perturbation_size=("float", None, 0.01),
             perturbation_direction=("str", ["right", "left"], "right"),
             archived_variables=("seq", str, ["steady_state_coverages"]),
             rootfinding=("str", ["MDNewton", "ConstrainedNewton"], "MDNewton"),
             tolerance=("float", None, 1e-8), max_rootfinding_iterations=("int", None, 100),
             ode_buffer_size=("int", None, 500), ode_output_interval=("int", None, 200),
             ref_energies=("ref", None, {}))
LATTICE = dict(COMMON, cell_vectors=("vectors", None, [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
               basis_sites=("vectors", None, [[0.0, 0.0, 0.0]]), repetitions=("seq", int, (1, 1, 1)),
               periodic=("seq", bool, (True, True, True)), nstep=("int", None, 1), random_seed=("int", None, None),
               time_seed=("bool", None, False), trajectory_dump_interval=("int", None, 1),
               random_generator=("str", ["MT", "MINSTD", "RANLUX24", "RANLUNX48"], "MT"),
               analysis=("seq", ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis", "EventAnalysis"], []),
               analysis_interval=("interval", None, None), possible_element_types=("seq", str, []),
               possible_site_types=("seq", str, []), empty_type=("str", None, "V"), tof_start=("int", None, 0),
               time_limit=("float", None, float("inf")), coverage_ratios=("seq", float, []),
               extra_trajectories=("seq", int, None), start_time=("float", None, 0.0),
               tof_interval=("float", None, 10), do_redistribution=("bool", None, False),
               redistribution_interval=("int", None, 1), fast_species=("seq", str, None),
               nsplits=("seq", int, (1, 1, 1)),
               distributor_type=("str", ["RandomDistributor", "ProcessRandomDistributor"], "RandomDistributor"))
TABLES = {"micro": MICRO, "lattice": LATTICE}
PROTECTED = {"micro": ["site_names", "adsorbate_names", "gas_names", "liquid_names", "transition_state_names",
                       "elementary_rxns_list", "has_relative_energy", "has_absolute_energy", "relative_energies",
                       "absolute_energies", "kB", "h", "logger", "TOFs", "reversibilities", "error",
                       "steady_state_coverages", "data_file", "log_allowed", "model_info"],
             "lattice": ["site_names", "adsorbate_names", "gas_names", "liquid_names", "transition_state_names",
                         "elementary_rxns_list", "has_relative_energy", "has_absolute_energy", "relative_energies",
                         "kB", "h", "logger", "log_allowed", "process_dicts", "processes", "configuration",
                         "sitesmap", "process_mapping"]}


def word(rng):
    return "".join(rng.choice("abcXYZ_0") for _ in range(rng.randint(1, 6)))


def number(rng):
    return rng.choice([round(rng.uniform(-5, 900), 3), 10.0**rng.randint(-30, 3), rng.randint(0, 1000), 0.0])


def right(rng, kind, arg):
    if kind == "float":
        return number(rng)
    if kind == "int":
        return rng.choice([0, 1, rng.randint(2, 9999)])
    if kind == "str":
        return rng.choice(arg) if arg else rng.choice(["CT", "TST", "V", word(rng)])
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "seq":
        n = rng.randint(0, 5)
        if isinstance(arg, list):
            v = [rng.choice(arg) for _ in range(n)]
        else:
            v = [{"int": lambda: rng.randint(0, 99), "str": lambda: word(rng), "float": lambda: rng.uniform(-1, 1),
                  "bool": lambda: rng.random() < 0.5}[arg.__name__]() for _ in range(n)]
        return ["tuple", v] if rng.random() < 0.5 else ["list", v]
    if kind == "vectors":
        return [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(rng.randint(1, 4))]
    if kind == "ref":
        return {word(rng): rng.uniform(-5, 5) for _ in range(rng.randint(0, 4))}
    if kind == "interval":
        def item():
            a = rng.randint(0, 50)
            b = a + rng.randint(0, 30)
            return rng.randint(1, 99) if rng.random() < 0.5 else [a, b, rng.randint(0, b - a)]
        return rng.randint(1, 99) if rng.random() < 0.3 else [item() for _ in range(rng.randint(0, 4))]
    raise ValueError(kind)


def wrong(rng, kind, arg):
    """Values encoded as [tag, value]; see decode."""
    odd = [["none", 0], ["list", [1.0]], ["dict", 0], ["str", "1.0"], ["complex", 0]]
    if kind == "float":
        return rng.choice(odd + [["bool", True], ["str", "nan"], ["npfloat", 1.5]])
    if kind == "int":
        return rng.choice(odd + [["plain", 3.0], ["bool", True], ["plain", 1e9]])
    if kind == "str":
        miss = []
        if arg:
            v = rng.choice(arg)
            miss = [["str", v.lower()], ["str", v + " "], ["str", v[:-1]], ["str", ""], ["str", v + v]]
            miss = [m for m in miss if m[1] not in arg]*2
        return rng.choice([["none", 0], ["plain", 3], ["list", ["TST"]], ["bytes", "TST"], ["bool", True]] + miss)
    if kind == "bool":
        return rng.choice([["plain", 0], ["plain", 1], ["none", 0], ["str", "True"], ["list", [True]]])
    if kind == "seq":
        if isinstance(arg, list):
            v = rng.choice(arg)
            return rng.choice([["str", v], ["list", [v, v + "x"]], ["list", [v.lower()]], ["set", [v]], ["list", [3]],
                               ["none", 0]])
        other = {"int": [["list", [1, 2.0, 3]], ["list", [True]], ["list", ["1"]]],
                 "str": [["list", ["a", 1]], ["list", [None]], ["str", "abc"]],
                 "float": [["list", [0.5, 1]], ["list", ["0.5"]], ["plain", 0.5]],
                 "bool": [["list", [True, 1, True]], ["list", [0, 0, 0]]]}[arg.__name__]
        return rng.choice(other*2 + [["none", 0], ["set", [1]], ["dict", 0], ["plain", 3], ["array", [1, 2]]])
    if kind == "vectors":
        return rng.choice([["plain", [1.0, 2.0, 3.0]], ["plain", [[1.0, 2.0]]], ["plain", [[1, 2, 3]]],
                           ["tuple", [[1.0, 2.0, 3.0]]], ["plain", [["a", "b", "c"]]], ["none", 0],
                           ["plain", [[[1.0, 2.0, 3.0]]]], ["plain", [[1.0, 2.0, 3.0, 4.0]]],
                           ["plain", [[1.0, 2.0, 3.0], [1.0]]]])
    if kind == "ref":
        return rng.choice([["plain", {"a": 1}], ["plain", {"a": "1.0"}], ["intkey", 0], ["none", 0],
                           ["plain", [["a", 1.0]]]])
    if kind == "interval":
        return rng.choice([["plain", 1.5], ["str", "1"], ["plain", [1, 2.0]], ["plain", [[1, 2]]],
                           ["plain", [[9, 1, 1]]], ["plain", [[0, 3, 9]]], ["plain", [[0, 3.0, 1]]], ["none", 0],
                           ["plain", [1, None]], ["plain", [[0, 5, 1, 1]]], ["dict", 0], ["plain", ["a"]]])
    raise ValueError(kind)


def decode(tagged):
    import numpy as np
    tag, v = tagged
    return {"none": lambda: None, "plain": lambda: v, "str": lambda: v, "bool": lambda: v, "list": lambda: list(v),
            "tuple": lambda: tuple(v), "set": lambda: set(v), "dict": lambda: {"a": 1}, "complex": lambda: 1j,
            "bytes": lambda: v.encode(), "intkey": lambda: {1: 1.0}, "npfloat": lambda: np.float32(v),
            "array": lambda: np.array(v)}[tag]()


def cases(rng, tier):
    for i in range(150 if tier == "quick" else 1500):
        rx, d = gen.mechanism(rng, n=rng.randint(1, 3), **gen.random_pool_args(rng))
        kind = rng.choice(["micro", "lattice"])
        table = TABLES[kind]
        chosen = rng.sample(sorted(table), rng.randint(1, len(table)))
        c = {"model": kind, "rxns": rx, "defs": d, "good": {}, "bad": [], "again": {},
             "levels": [rng.choice([0, 10, 20, 30, 40, 50]) for _ in range(3)],
             "badlevel": rng.choice([["plain", 5], ["plain", 60], ["plain", -10], ["str", "10"], ["plain", 10.0],
                                     ["none", 0], ["plain", 55]]),
             "component": rng.choice([["parser", "CsvParser"], ["parser", "parser"], ["solver", "Solver"],
                                      ["solver", "SteadyStateSolver "], ["corrector", "ThermodynamicCorrectors"],
                                      ["plotter", "energyprofileplotter"], ["corrector", 3], ["solver", None],
                                      ["parser", ["RelativeEnergyParser"]], ["parser", "SolverBase"],
                                      ["plotter", "PlotterBase"], ["parser", "ParserBase"]])}
        for name in chosen:
            k, a, _ = table[name]
            c["good"][name] = [k, right(rng, k, a)]
            c["again"][name] = [k, right(rng, k, a)]
        for name in rng.sample(sorted(table), 5):
            k, a, _ = table[name]
            c["bad"].append([name, wrong(rng, k, a)])
        yield c


def value(kv):
    kind, v = kv
    if kind == "seq":
        return tuple(v[1]) if v[0] == "tuple" else list(v[1])
    return v


def setup(c, extra):
    s = dict(rxn_expressions=list(c["rxns"]), species_definitions=copy.deepcopy(c["defs"]),
             parser="RelativeEnergyParser" if c["model"] == "micro" else "KMCParser",
             solver="SteadyStateSolver" if c["model"] == "micro" else "KMCSolver")
    s.update(extra)
    return s


def run(case, mon):
    import importlib
    c = case
    mod, cls = (MODEL if c["model"] == "micro" else KMC).split(":")
    Model = getattr(importlib.import_module(mod), cls)
    table = TABLES[c["model"]]
    quiet = dict(logger_level=50, file_handler_level=50, console_handler_level=50)

    def make(s, **kw):
        m = Model(setup_dict=s, **dict(quiet, **kw))
        util.close_logs(m)
        return m

    # accepted values
    good = {k: value(v) for k, v in c["good"].items()}
    m = make(setup(c, copy.deepcopy(good)), **dict(zip(sorted(quiet), c["levels"])))
    for name, (kind, _a, default) in sorted(table.items()):
        got = getattr(m, name)
        if name in good:
            mon.count("accepted")
            mon.nontrivial([c["model"], name, repr(good[name])])
            mon.equal(got, good[name], "a configured value reads back differently", parameter=name)
            mon.equal(type(got).__name__, type(good[name]).__name__, "a configured value changed its type", parameter=name)
        else:
            mon.count("defaults")
            mon.equal(got, default, "default value", parameter=name)
        # reassigning
        new = value(c["again"][name]) if name in c["again"] else copy.deepcopy(default)
        mon.raises(lambda: setattr(m, name, new), AttributeError if valid(c, table, name, new) else Exception,
                   "a configured value could be reassigned", parameter=name, new=new)
        mon.count("reassignments refused")
        mon.equal(getattr(m, name), got, "a refused reassignment had an effect", parameter=name)
    for name, level in zip(sorted(quiet), c["levels"]):
        mon.equal(getattr(m, name), level, "logging level", parameter=name)
    for name in ("rxn_expressions", "species_definitions", "setup_dict"):
        mon.raises(lambda: setattr(m, name, type(getattr(m, name))()), AttributeError,
                   "a configured value could be reassigned", parameter=name)
    mon.equal(m.rxn_expressions, c["rxns"], "reactions read back differently")
    # the species definitions are copies
    d = m.species_definitions
    for k, v in c["defs"].items():
        for q, w in v.items():
            mon.equal(d.get(k, {}).get(q), w, "a species definition reads back differently", species=k, item=q)
    for k in list(d):
        d[k]["pressure"] = -1.0
        d[k]["total"] = -1.0
    d["extra"] = {}
    d2 = m.species_definitions
    mon.check("extra" not in d2 and all(v.get("pressure") != -1.0 and v.get("total") != -1.0 for v in d2.values()),
              "changing the returned species definitions changed the model", got=d2)
    mon.count("copies")
    # computed properties
    for name in PROTECTED[c["model"]]:
        mon.raises(lambda: setattr(m, name, 1), AttributeError, "a computed value could be assigned", parameter=name)
        mon.count("properties protected")
    if c["model"] == "micro":
        for name in ("error", "coverages", "rate_expressions", "pressures", "concentrations", "has_symbols",
                     "classified_adsorbates"):
            mon.raises(lambda: setattr(m.solver, name, 1), AttributeError, "a computed value could be assigned",
                       parameter="solver." + name)
            mon.count("properties protected")
    # components
    other = make(setup(c, {}))
    for fn in (m.set_solver, m.set_corrector):
        for bad in (None, "SteadyStateSolver", 3, other.parser, other):
            mon.raises(lambda: fn(bad), TypeError, "a wrong component was accepted", component=str(bad)[:50])
    before = m.solver
    m.set_solver(other.solver)
    mon.check(m.solver is other.solver, "the given solver was not set")
    m.set_solver(before)
    from scaks.correctors import ThermodynamicCorrector
    t = ThermodynamicCorrector(owner=m)
    m.set_corrector(t)
    mon.check(m.corrector is t, "the given corrector was not set")
    mon.raises(lambda: m.set_corrector(before), TypeError, "a wrong component was accepted")
    mark = object()
    m.set_plotter(mark)
    mon.check(m.plotter is mark, "the given plotter was not set")
    mon.count("components")
    # refused values
    import scaks.errors.error as err
    refused = (ValueError, TypeError, err.SetupError, err.ParameterError)
    for name, tagged in c["bad"]:
        bad = decode(tagged)
        extra = {k: v for k, v in good.items() if k != name}
        extra[name] = bad
        mon.raises(lambda: make(setup(c, extra)), refused, "a wrong value was accepted", parameter=name, value=repr(bad))
        mon.count("refused")
        mon.nontrivial([c["model"], name, "bad", repr(tagged)])
        fresh = make(setup(c, {}))
        mon.raises(lambda: setattr(fresh, name, bad), refused, "a wrong value was accepted afterwards", parameter=name,
                   value=repr(bad))
    lv = decode(c["badlevel"])
    for name in quiet:
        mon.raises(lambda: make(setup(c, {}), **{name: lv}), refused, "a wrong logging level was accepted",
                   parameter=name, value=repr(lv))
    name, bad = c["component"]
    mon.raises(lambda: make(setup(c, {name: bad})), refused, "an unknown component was accepted", component=name,
               value=repr(bad))
    s = setup(c, {})
    del s["parser"]
    mon.raises(lambda: make(s), err.ParameterError, "a model without parser was accepted")
    mon.raises(lambda: Model(**quiet), ValueError, "a model without setup was accepted")
    mon.raises(lambda: Model(setup_dict=[1], **quiet), ValueError, "a setup of the wrong type was accepted")
    for bad in ([], None, "x", {"CO_g": {}}, {"H2_g": {"total": 1.0}}):
        mon.raises(lambda: make(setup(c, {"species_definitions": bad})), refused + (AttributeError,),
                   "wrong species definitions were accepted", value=repr(bad))
    for bad in ("CO_g + *_s -> CO_s", [3], None, {"a": 1}):
        mon.raises(lambda: make(setup(c, {"rxn_expressions": bad})), refused, "wrong reactions were accepted",
                   value=repr(bad))
    mon.show({"model": c["model"], "parameters": sorted(good)})


def valid(c, table, name, new):
    """Whether the value itself would be accepted (None defaults are not)."""
    return new is not None and not (name == "tof_interval" and type(new) not in (int, float))
