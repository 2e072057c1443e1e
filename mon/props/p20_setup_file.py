"""P20: a setup file and the equivalent dictionary define the same model."""
import logging
import os

from .. import gen, ref, util
from .p19_configuration import TABLES, right, value

NEEDS_KMCLIB = True
RULE = "a setup written to a file in one of several layouts, against the same setup as a dictionary; distinct setups"
MIN = {"setups": 100, "attributes compared": 3000, "unknown parameters": 150, "results compared": 8, "both given": 20,
       "repeated loads": 40, "scripts": 15, "zero temperature": 4}
UNKNOWN = ["my_note", "temperatures", "Temperature", "helper", "rxn_expression", "tol", "x", "species", "n_step", "_private",
           "parsers", "solver_", "setup", "kb", "pressure", "decimal_precisions"]


def cases(rng, tier):
    for i in range(130 if tier == "quick" else 1200):
        rx, d = gen.mechanism(rng, n=rng.randint(1, 4), **gen.random_pool_args(rng))
        kind = rng.choice(["micro", "micro", "lattice"])
        table = TABLES[kind]
        chosen = rng.sample(sorted(set(table) - {"temperature", "decimal_precision", "rate_algo"}),
                            rng.randint(0, min(12, len(table) - 3)))
        c = {"model": kind, "rxns": rx, "defs": d, "good": {}, "T": round(rng.uniform(250, 1200), 2) if rng.random() < 0.93 else 0.0,
             "algo": rng.choice(["TST", "CT"]), "prec": rng.choice([30, 50, 100]),
             "layout": rng.choice(["plain", "computed", "loop", "function", "import", "late", "script",
                                   "script"]),
             "order": rng.random(), "unknown": rng.sample(UNKNOWN, rng.randint(0, 4)),
             "name": rng.choice(["setup.mkm", "input.py", "sub/model.mkm", "a b.txt"]),
             "e": gen.relative_energies(rng, len(rx)), "cvg": gen.coverages(rng, rx, d)}
        for name in chosen:
            k, a, _ = table[name]
            c["good"][name] = [k, right(rng, k, a)]
        yield c


def setup(c):
    s = dict(rxn_expressions=list(c["rxns"]), species_definitions={k: dict(v) for k, v in c["defs"].items()},
             temperature=c["T"], rate_algo=c["algo"],
             parser="RelativeEnergyParser" if c["model"] == "micro" else "KMCParser",
             solver="SteadyStateSolver" if c["model"] == "micro" else "KMCSolver")
    if c["model"] == "micro":
        s["decimal_precision"] = c["prec"]
    s.update({k: value(v) for k, v in c["good"].items()})
    return s


def literal(v):
    if isinstance(v, float) and v == float("inf"):
        return "float('inf')"
    return repr(v)


def write(c, s):
    """The text of a setup file defining `s` in the layout of the case."""
    import random
    rng = random.Random(c["order"])
    names = list(s)
    rng.shuffle(names)
    out = ["# coding: utf-8", ""]
    lay = c["layout"]
    if lay == "script":
        text = util.script({n: s[n] for n in names}, literal)
        return text + "".join("{} = {!r}\n".format(u, [1, "CO", None]) for u in c["unknown"])
    if lay == "import":
        out += ["import os, math", "from math import pi", ""]
    for n in names:
        v = s[n]
        if n == "rxn_expressions" and lay == "loop":
            out += ["rxn_expressions = []", "for _rxn in {}:".format(tuple(v)), "    rxn_expressions.append(_rxn)"]
        elif n == "species_definitions" and lay in ("loop", "computed"):
            out.append("species_definitions = {}")
            for k, q in v.items():
                out.append("species_definitions[{!r}] = {!r}".format(k, q))
        elif n == "temperature" and lay == "computed":
            out += ["t = {!r}".format(v - 1.0), "temperature = {!r}".format(v) if (v - 1.0) + 1.0 != v else
                    "temperature = t + 1.0"]
        elif n == "temperature" and lay == "function":
            out += ["def make(x):", "    return x", "temperature = make({!r})".format(v)]
        elif n == "rate_algo" and lay == "late":
            out += ["rate_algo = 'something'", "rate_algo = {!r}".format(v)]
        elif n == "rxn_expressions":
            out.append("rxn_expressions = [")
            out += ["    {!r},   # reaction {}".format(r, i) for i, r in enumerate(v)] + ["]"]
        else:
            out.append("{} = {}".format(n, literal(v)))
    for u in c["unknown"]:
        out.insert(rng.randint(2 if lay == "import" else 1, 2), "{} = {!r}".format(u, [1, "CO", None]))
    return "\n".join(out) + "\n"


class Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))


def run(case, mon):
    from scaks.models.kmc_model import KMCModel
    from scaks.models.micro_kinetic_model import MicroKineticModel
    c = case
    Model = MicroKineticModel if c["model"] == "micro" else KMCModel
    quiet = dict(file_handler_level=50, console_handler_level=50)
    logger = logging.getLogger("model")

    def make(**kw):
        rec = Records()
        logger.addHandler(rec)
        try:
            m = Model(logger_level=kw.pop("logger_level", 30), **dict(quiet, **kw))
        finally:
            logger.removeHandler(rec)
        util.close_logs(m)
        return m, [t for lv, t in rec.records if lv >= logging.WARNING]

    s = setup(c)
    a, w0 = make(setup_dict=setup(c))
    os.makedirs("sub", exist_ok=True)
    with open(c["name"], "w") as f:
        f.write(write(c, s))
    b, w1 = make(setup_file=c["name"])
    mon.count("setups")
    mon.count("scripts", c["layout"] == "script")
    mon.count("zero temperature", not c["T"])
    models = [a, b]
    mon.nontrivial([c["model"], c["rxns"], c["layout"], sorted(c["good"]), c["unknown"]])
    compare(c, a, b, mon, "file")
    mon.equal(b.setup_file, c["name"], "the name of the setup file")
    mon.equal(w0, [], "a setup without unknown parameters gave warnings", warnings=w0)
    for u in c["unknown"]:
        mon.count("unknown parameters")
        mon.check(any("'" + u + "'" in t for t in w1), "no warning about an unknown parameter", parameter=u, warnings=w1)
        mon.check(not hasattr(b, u), "an unknown parameter became an attribute", parameter=u)
    for name in s:
        mon.check(not any("'" + name + "'" in t for t in w1), "a warning about a known parameter", parameter=name)
    # the same unknown names in a dictionary
    if c["unknown"]:
        d, w2 = make(setup_dict=dict(setup(c), **{u: [1, "CO", None] for u in c["unknown"]}))
        models.append(d)
        compare(c, a, d, mon, "dictionary with unknown parameters")
        for u in c["unknown"]:
            mon.check(any("'" + u + "'" in t for t in w2), "no warning about an unknown parameter", parameter=u)
    # the dictionary wins if both are given
    if c["order"] < 0.4:
        with open("other.mkm", "w") as f:
            f.write(write(c, dict(s, temperature=c["T"] + 17.0)))
        e, _ = make(setup_file="other.mkm", setup_dict=setup(c))
        compare(c, a, e, mon, "dictionary beside a file")
        mon.count("both given")
    # loading again, and loading the file does not change it
    if c["order"] > 0.3:
        with open(c["name"]) as f:
            before = f.read()
        g, _ = make(setup_file=c["name"])
        models.append(g)
        compare(c, b, g, mon, "second load")
        with open(c["name"]) as f:
            mon.equal(f.read(), before, "loading changed the setup file")
        mon.count("repeated loads")
    results(c, models, mon)
    mon.show({"model": c["model"], "layout": c["layout"], "unknown": c["unknown"]})


def compare(c, a, b, mon, how):
    for name in sorted(TABLES[c["model"]]):
        mon.count("attributes compared")
        p, q = getattr(a, name), getattr(b, name)
        mon.check(p == q and type(p) is type(q), "an attribute differs between the two ways of loading", attribute=name,
                  dictionary=p, loaded=q, how=how)
    for name in ("rxn_expressions", "species_definitions", "site_names", "adsorbate_names", "gas_names", "liquid_names",
                 "transition_state_names", "has_relative_energy", "has_absolute_energy", "relative_energies"):
        mon.count("attributes compared")
        mon.equal(getattr(b, name), getattr(a, name), "data differ between the two ways of loading", attribute=name, how=how)
    for name in ("parser", "solver"):
        mon.equal(type(getattr(b, name)).__name__, type(getattr(a, name)).__name__, "component", name=name, how=how)
    mon.check(c["T"] == a.temperature == b.temperature, "temperature", how=how)


def results(c, models, mon):
    """What the models compute."""
    if c["model"] != "micro" or set(c["good"]) & {"unitcell_area", "active_ratio"} or c["algo"] == "CT" or not c["T"]:
        return
    out = []
    for m in models:
        util.with_relative(m, c["e"])
        m.solver.get_data()
        rf, rr = m.solver.get_rates(tuple(c["cvg"]))
        out.append([str(v) for v in list(rf) + list(rr)])
    mon.count("results compared", len(out) - 1)
    for o in out[1:]:
        mon.equal(o, out[0], "results differ between the two ways of loading")
