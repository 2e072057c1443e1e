"""P35: impossible requests are refused and leave the model as it was."""
import logging
import os
import pickle

from .. import core, gen, ref, steady, util

RULE = ("one request that names an unknown species, reaction, handler or method, has the wrong length or type or lacks "
        "energies, made before or after solving a random model; distinct (request, mechanism)")
MIN = {"refusals": 1500, "requests": 30, "models unchanged": 60, "runs afterwards": 40, "unsolved models": 15,
       "states and formulas": 200}
CASE_TIMEOUT = 60
MAX_SKIP = 0.35
BUDGET = {"quick": 300}


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(60*k):
        c = steady.case(rng, random_mechs=0.3)
        c["kind"] = "model"
        c["solved"] = rng.random() < 0.75
        c["order"] = rng.random()
        c["root"] = rng.choice(["MDNewton", "ConstrainedNewton"])
        yield c
    for i in range(20*k):
        rx, d = gen.mechanism(rng, n=rng.randint(1, 4), **gen.random_pool_args(rng))
        if ref.names(rx)["ads"]:
            yield {"kind": "empty", "rxns": rx, "defs": d, "T": round(rng.uniform(300, 900), 1),
                   "algo": rng.choice(["TST", "CT"]), "corrector": rng.random() < 0.5}
    for i in range(20*k):
        rx, d = gen.mechanism(rng, n=rng.randint(2, 6), **gen.random_pool_args(rng))
        yield {"kind": "formulas", "rxns": rx, "seed": rng.random()}


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(w) for k, w in sorted(v.items(), key=lambda t: str(t[0]))}
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    return str(v)


def fingerprint(m):
    out = {}
    for n in ("temperature", "rxn_expressions", "species_definitions", "adsorbate_names", "gas_names", "site_names",
              "liquid_names", "transition_state_names", "relative_energies", "has_relative_energy",
              "has_absolute_energy", "rate_algo", "rootfinding", "tolerance", "decimal_precision"):
        out[n] = plain(getattr(m, n, None))
    for n in ("steady_state_coverages", "TOFs", "reversibilities", "error"):
        try:
            out[n] = plain(getattr(m, n))
        except AttributeError:
            out[n] = "unsolved"
    for n in ("coverages", "error"):
        try:
            out["solver " + n] = plain(getattr(m.solver, n))
        except AttributeError:
            out["solver " + n] = "none"
    out["absolute"] = plain(getattr(m, "absolute_energies", None))
    if os.path.exists(m.data_file):
        with open(m.data_file, "rb") as f:
            out["file"] = plain(pickle.load(f).get("steady_state_coverages"))
    out["dtheta/dt"] = list(m.solver.get_dtheta_dt_expressions())
    return out


def species(nm, *skip):
    return [n for q in ("ads", "gas", "liquid", "site", "ts") if q not in skip for n in nm[q]]


def damaged(e):
    """Relative energies that lack barriers."""
    yield {"Gaf": e["Gaf"], "dG": e["dG"]}
    yield {"Gar": e["Gar"], "dG": e["dG"]}
    yield {"dG": e["dG"]}
    yield {"gaf": e["Gaf"], "gar": e["Gar"]}


def requests(c, m, nm):
    """(name, callable, the documented error) for a model with energies."""
    from scaks.errors.error import ParameterError
    s = m.solver
    n = len(nm["ads"])
    x = tuple(c["c0"])
    for bad in (x + (0.1,), x[:-1] or (0.1, 0.2), (0.0,)*(n + 3)):
        yield "run with too many or few coverages", lambda b=bad: m.run(init_cvgs=list(b)), ParameterError
        yield "Jacobian of too many or few coverages", lambda b=bad: s.analytical_jacobian(b), ParameterError
    for bad in (dict(zip(nm["ads"], x)), 0.25, "coverages", {0.1, 0.2}, (v for v in x)):
        yield "run with coverages of a wrong type", lambda b=bad: m.run(init_cvgs=b), ParameterError
    e = steady.relative(c["rxns"], c["abs2"])
    for bad in damaged(e):
        yield "rate constants without barriers", lambda b=bad: s.get_rate_constants(relative_energies=b), ParameterError
        yield "rates without barriers", lambda b=bad: s.get_rates(x, relative_energies=b), ParameterError
        yield "net rates without barriers", lambda b=bad: s.get_net_rates(x, relative_energies=b), ParameterError
        yield "steady state function without barriers", lambda b=bad: s.steady_state_function(
            x, relative_energies=b), ParameterError
        yield "Jacobian without barriers", lambda b=bad: s.analytical_jacobian(x, relative_energies=b), ParameterError
        yield "turnover without barriers", lambda b=bad: s.get_tof(x, relative_energies=b), ParameterError
        yield "steady state without barriers", lambda b=bad: s.get_steady_state_cvgs(
            c0=x, relative_energies=b), ParameterError
    odd = ["Xx_g", "", "CO", "O9_q", nm["ads"][0] + "x", nm["ads"][0][:-1]]
    for bad in species(nm, "gas") + odd:
        if bad in nm["gas"]:
            continue
        yield "turnover of something that is no gas", lambda b=bad: s.get_tof(x, gas_name=b), ParameterError
    for bad in species(nm, "ads") + odd:
        if bad in nm["ads"]:
            continue
        yield "rate expression of something that is no adsorbate", lambda b=bad: \
            s.get_elementary_dtheta_dt_expression(b, c["rxns"][0]), ValueError
        yield "symbolic rate of something that is no adsorbate", lambda b=bad: \
            s.get_elementary_dtheta_dt_sym(b, c["rxns"][0]), ParameterError
        yield "derivative by something that is no adsorbate", lambda b=bad: \
            s.poly_adsorbate_derivation(adsorbate_name=b, poly_expression="dtheta_dt[0] = kf[0]*theta['{}']".format(
                nm["ads"][0])), ValueError
    for bad in ("CO_g + *_q -> CO_q", c["rxns"][0] + " ", "", c["rxns"][0][:-1]):
        if bad not in c["rxns"]:
            yield "symbolic rate of an unknown reaction", lambda b=bad: \
                s.get_elementary_dtheta_dt_sym(nm["ads"][0], b), ParameterError
    yield "reversibilities of lists of different lengths", lambda: s.get_reversibilities([1.0, 2.0], [1.0]), ValueError
    yield "reversibilities of lists of different lengths", lambda: s.get_reversibilities([1.0], []), ValueError
    T = c["T"]
    for f, a in ((1.0001, 1.0), (1.0, 1.5), (7.0, 0.5), (0.5, 2.0), (1.1, 1.1)):
        yield "sticking above one", lambda f=f, a=a: s.get_kCT(
            Ea=0.1, Auc=1e-19, act_ratio=a, p=101325.0, m=1e-26, T=T, f=f), ParameterError
    for bad in ("FileHandler2", "", "filehandler", "Handler", "SocketHandler"):
        yield "logging level of an unknown handler", lambda b=bad: m.set_logger_level(b, logging.ERROR), ValueError
    for bad in (None, 3, s, "model", type(m)):
        yield "hybrid guess for something that is no model", lambda b=bad: m.hybrid_method(b, 0), TypeError


def same(mon, before, m, what, **kw):
    after = fingerprint(m)
    for k in before:
        if before[k] != after[k]:
            mon.violation("a refused request changed the model", request=what, changed=k, before=before[k],
                          after=after[k], **kw)
    mon.count("assertions")


def refuse(mon, c, m, rows):
    seen = set()
    kw = dict(rxns=c["rxns"])
    before = fingerprint(m)
    for what, fn, exc in rows:
        mon.raises(fn, exc, what, **kw)
        mon.count("refusals")
        if what not in seen:
            mon.count("requests")
            seen.add(what)
            mon.nontrivial([what, c["rxns"]])
            same(mon, before, m, what, **kw)
    same(mon, before, m, "all", **kw)
    mon.count("models unchanged")


def solve(c, m, mon=None):
    try:
        m.run(init_cvgs=list(c["c0"]), coarse_guess=False)
    except (steady.GiveUp, ZeroDivisionError):
        raise core.Skip("not converged")
    except ValueError as e:
        if "ZeroDivisionError" in str(e):
            raise core.Skip("singular Jacobian met")
        raise
    return {"x": [float(v) for v in m.steady_state_coverages], "tof": [float(v) for v in m.TOFs],
            "error": float(m.error)}


def model(c, mon):
    from scaks.errors.error import ParameterError
    nm = ref.names(c["rxns"])
    opts = dict(rootfinding=c["root"], tolerance=1e-14, max_rootfinding_iterations=60)
    m = steady.build(c, **opts)
    if c["solved"]:
        first = solve(c, m)
    else:
        mon.count("unsolved models")
        for g in list(nm["gas"]) + ["Xx_g"]:
            mon.raises(lambda: m.solver.get_single_XRC(g), AttributeError, "rate control of an unsolved model",
                       rxns=c["rxns"])
            mon.count("refusals")
        mon.equal(m.log_allowed, True, "logging after a refused request", rxns=c["rxns"])
    rows = list(requests(c, m, nm))
    if c["solved"]:
        for bad in species(nm, "gas") + ["Xx_g", ""]:
            rows.append(("rate control of something that is no gas",
                         lambda b=bad: m.solver.get_single_XRC(b), ParameterError))
            rows.append(("run for rate control of something that is no gas",
                         lambda b=bad: m.run(init_cvgs=list(m.steady_state_coverages), XRC=True, product_name=b),
                         ParameterError))
        rows.append(("run for rate control of no product",
                     lambda: m.run(init_cvgs=list(m.steady_state_coverages), XRC=True), ParameterError))
        refuse_runs = [r for r in rows if r[0].startswith("run for")]
        rows = [r for r in rows if not r[0].startswith("run for")]
    else:
        refuse_runs = []
    import random
    random.Random(c["order"]).shuffle(rows)
    refuse(mon, c, m, rows)
    # these solve first and are refused afterwards: the solved model is as before
    for what, fn, exc in refuse_runs:
        try:
            fn()
            mon.violation(what, got="no error", rxns=c["rxns"])
        except exc:
            pass
        except (ZeroDivisionError, steady.GiveUp):   # of the solution, on the way
            raise core.Skip("not solved again")
        mon.count("refusals")
        mon.nontrivial([what, c["rxns"]])
        for a, b in zip(m.steady_state_coverages, first["x"]):
            mon.close(float(a), b, "coverages after a refused rate control", rtol=1e-6, atol=1e-10, rxns=c["rxns"])
    # and the model still works like one that was never asked
    if c["solved"]:
        os.remove(m.data_file)
    got = solve(c, m)
    os.mkdir("apart")
    os.chdir("apart")
    want = solve(c, steady.build(c, **opts))
    os.chdir("..")
    mon.equal(got, want, "results after refused requests", rxns=c["rxns"])
    mon.equal(m.log_allowed, True, "logging after refused requests", rxns=c["rxns"])
    mon.count("runs afterwards")
    mon.show({"rxns": c["rxns"], "refused": len(rows) + len(refuse_runs)})


def empty(c, mon):
    """Models without energies."""
    from scaks.errors.error import ParameterError, SetupError
    nm = ref.names(c["rxns"])
    kw = {"rate_algo": c["algo"]}
    if c["corrector"]:
        kw["corrector"] = "ThermodynamicCorrector"
    m = util.mkm(c["rxns"], c["defs"], temperature=c["T"], decimal_precision=30, **kw)
    s = m.solver
    x = tuple(0.1 for _ in nm["ads"])
    rows = [("rate constants without energies", lambda: s.get_rate_constants(), AttributeError),
            ("Boltzmann coverages without absolute energies", lambda: s.boltzmann_coverages(), IOError)]
    for e in ({"dG": [0.1]*len(c["rxns"])}, {"Gaf": [1.0]*len(c["rxns"])}, {"Gar": [1.0]*len(c["rxns"])}):
        rows.append(("rate constants without barriers", lambda e=e: s.get_rate_constants(relative_energies=e),
                     ParameterError))
    if c["corrector"]:
        n = len(c["rxns"])
        for bad in ("", "Shomate", "harmonic", None):
            rows.append(("correction by an unknown method", lambda b=bad: m.corrector.correct_relative_energies(
                {"Gaf": [1.0]*n, "Gar": [1.0]*n, "dG": [0.0]*n}, method=b), ValueError))
    refuse(mon, dict(c), m, rows)
    mon.count("unsolved models")
    e = {"Gaf": [1.0]*len(c["rxns"]), "Gar": [1.0]*len(c["rxns"]), "dG": [0.0]*len(c["rxns"])}
    for Auc in (0.0, -1e-19):
        b = util.mkm(c["rxns"], c["defs"], temperature=c["T"], decimal_precision=30, rate_algo="CT",
                     unitcell_area=Auc, active_ratio=0.5)
        mon.raises(lambda: b.solver.get_rate_constants(relative_energies=e), AttributeError,
                   "collision theory without a unit cell", area=Auc, rxns=c["rxns"])
        mon.count("refusals")
    # levels of the log handlers
    q = util.mkm(c["rxns"], c["defs"], temperature=c["T"], keep_logs=True)
    levels = [logging.DEBUG, logging.WARNING, logging.ERROR, logging.INFO]
    for h in ("FileHandler", "StreamHandler"):
        old = q.set_logger_level(h, levels[0])
        for lv in levels[1:]:
            mon.equal(q.set_logger_level(h, lv), levels[levels.index(lv) - 1], "former logging level", handler=h)
        q.set_logger_level(h, old)
    util.close_logs(q)


def formulas(c, mon):
    import random
    from scaks.errors.error import ParameterError
    from scaks.parsers.rxn_parser import ChemFormula, ChemFormulaError, ChemState
    rng = random.Random(c["seed"])
    keys = species(ref.names(c["rxns"]), "site")
    keys = [k for k in keys if ref.parse_formula(k)["kind"] != "ts"] or keys

    def elements(k):
        f = ref.parse_formula(k)
        return f["elements"], ({} if f["kind"] in ("gas", "liquid") else {f["site"]: f["nsite"]})
    for _ in range(25):
        a, b = rng.choice(keys), rng.choice(keys)
        ea, eb = elements(a), elements(b)
        ok = ea == eb
        if a == b or rng.random() < 0.5:
            n = rng.randint(2, 4)
        else:
            n = 1
        one = ChemFormula(a)
        mon.count("states and formulas")
        if a != b and {a[-2:], b[-2:]} == {"_g", "_l"}:
            continue   # fluids of one composition, in different phases
        if ok:
            mon.check(one.conserve(ChemFormula(b)), "formulas with the same content do not conserve", a=a, b=b)
        else:
            mon.raises(lambda: one.conserve(ChemFormula(b)), ValueError, "formulas with other content conserve",
                       a=a, b=b)
            mon.raises(lambda: ChemState(a).conserve(ChemState(b)), ValueError, "states with other content conserve",
                       a=a, b=b)
        if n > 1:
            big = "{}{}".format(n, a)
            mon.raises(lambda: one.conserve(ChemFormula(big)), ValueError, "a formula conserves with its multiple",
                       a=a, b=big)
            mon.check(ChemState(big).conserve(ChemState(" + ".join([a]*n))), "a multiple is not a repeated species",
                      a=a, n=n)
        for wrong in (ChemState(a), a, None, 3):
            mon.raises(lambda: one.conserve(wrong), ParameterError, "a formula conserves with something else", a=a,
                       other=str(wrong))
        for wrong in (ChemFormula(a), a, None, [a]):
            mon.raises(lambda: ChemState(a).conserve(wrong), ParameterError, "a state conserves with something else",
                       a=a, other=str(wrong))
        total = one + ChemFormula(b)
        mon.check(isinstance(total, ChemState), "the sum of two formulas is no state", a=a, b=b)
        mon.check(total.conserve(ChemState("{} + {}".format(b, a))), "the sum of two formulas lost content", a=a, b=b)
        mon.nontrivial([a, b])
    for bad in ("", "abc", "_", "CO_", "*", "2", "->", "CO", "C O"):
        mon.raises(lambda: ChemFormula(bad), ChemFormulaError, "text that is no formula was taken", text=bad)
        mon.count("refusals")


def run(case, mon):
    {"model": model, "empty": empty, "formulas": formulas}[case["kind"]](case, mon)
