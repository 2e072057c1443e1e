"""P13: returned steady states are physical and satisfy the tolerance."""
import traceback

from .. import core, gen, ref, steady

RULE = ("a converged solution of a random model whose physicality and residual were recomputed in "
        "independent arithmetic; distinct (mechanism, energies, root finder, route)")
MIN = {"solutions": 60, "MDNewton": 15, "ConstrainedNewton": 10, "run()": 15, "given energies": 15,
       "good initial guesses": 5, "fsolve": 8, "linear systems": 25}
CASE_TIMEOUT = 25
MAX_SKIP = 0.35
BUDGET = {"quick": 300}


def cases(rng, tier):
    for i in range(110 if tier == "quick" else 1000):
        if i % 22 == 3:
            rx = steady.chain(rng, rng.randint(9, 14))
            c = steady.energy_case(rng, rx, gen.definitions(rng, rx))
        else:
            c = steady.case(rng)
        c["root"] = rng.choice(["MDNewton", "MDNewton", "ConstrainedNewton"])
        c["route"] = ["solver", "run", "solver", "fsolve", "run"][i % 5]
        c["override"] = rng.random() < 0.4
        c["tol"] = rng.choice([1e-8, 1e-12, 1e-20])
        c["coarse"] = rng.random() < 0.6
        c["file"] = rng.random() < 0.5
        # unphysical guesses must be constrained
        if rng.random() < 0.3:
            c["c0"] = [round(rng.uniform(-0.5, 1.5), 3) for _ in c["c0"]]
        yield c
    for _ in range(30 if tier == "quick" else 300):
        yield linear_case(rng)


def linear_case(rng):
    """Adsorption without dissociation and isomerisation: linear equations with one root, a physical one."""
    rx = []
    for name, other in rng.sample([("CO", "OC"), ("NO", "ON"), ("HCN", "CNH"), ("H2O", "OH2"), ("CH4O", "H4CO")], rng.randint(1, 4)):
        rx.append(rng.choice(["{0}_g + *_s -> {0}_s", "{0}_s -> {0}_g + *_s"]).format(name))
        if rng.random() < 0.4:
            rx.append("{}_s -> {}_s".format(name, other))
            if rng.random() < 0.5:
                rx.append("{0}_s -> {0}_g + *_s".format(other))
    rng.shuffle(rx)
    d = gen.definitions(rng, rx)
    c = steady.energy_case(rng, rx, d)
    c.update(route="linear", root=rng.choice(["MDNewton", "ConstrainedNewton"]), tol=rng.choice([1e-6, 1e-8]), override=False)
    return c


def run_linear(c, mon):
    m = steady.build(c, rootfinding=c["root"], tolerance=c["tol"], max_rootfinding_iterations=100)
    calls = []

    def hybrid(model, n):
        calls.append(n)
        raise steady.GiveUp()
    m.hybrid_method_register(hybrid)
    kw = dict(rxns=c["rxns"], root=c["root"], start=c["c0"], energies=c["abs"], T=c["T"])
    mon.nontrivial([c["rxns"], c["abs"], c["root"], "linear"])
    mon.count("linear systems")
    try:
        x = m.solver.get_steady_state_cvgs(c0=tuple(c["c0"]))
    except (steady.GiveUp, ValueError) as e:
        mon.violation("the only root of linear coverage equations was not found", error=repr(e), hybrid=calls, **kw)
        return
    val, _ = steady.kinetics(c).dtheta(x)
    mon.check(max(abs(v) for v in val) <= c["tol"]*1.001, "residual above the tolerance", **kw)
    steady.physical(mon, c, x, slack=ref.mpf(10)**-25)


def run(case, mon):
    if case["route"] == "linear":
        return run_linear(case, mon)
    c = case
    m = steady.build(c, rootfinding=c["root"], tolerance=c["tol"], max_rootfinding_iterations=60)
    s = m.solver
    own = steady.relative(c["rxns"], c["abs"])
    given = steady.relative(c["rxns"], c["abs2"]) if c["override"] else None
    K = steady.kinetics(c, given or own)
    kw = dict(rxns=c["rxns"], route=c["route"], root=c["root"])
    try:
        if c["route"] == "solver":
            x = s.get_steady_state_cvgs(c0=tuple(c["c0"]), relative_energies=given)
        elif c["route"] == "run":
            m.run(init_cvgs=list(c["c0"]), relative_energies=given, coarse_guess=c["coarse"])
            x = m.steady_state_coverages
        else:
            m.run(init_cvgs=list(c["c0"]), relative_energies=given, fsolve=True)
            x = m.steady_state_coverages
    except steady.GiveUp:
        raise core.Skip("not converged")
    except ValueError as e:
        if "ZeroDivisionError" in str(e):
            raise core.Skip("singular Jacobian met")
        raise
    except ZeroDivisionError:
        # reversibilities of a reaction whose forward rate vanishes are not defined
        raise core.Skip("a forward rate vanishes")
    except TypeError:
        if "mpmath" in traceback.format_exc().split("File ")[-1]:   # LU of a matrix with NaN
            raise core.Skip("diverged iterate")
        raise
    if x is None:
        mon.violation("no coverages were returned", **kw)
        return
    mon.nontrivial([c["rxns"], c["abs"], c["root"], c["route"], c["override"]])
    mon.count("solutions")
    mon.count({"fsolve": "fsolve", "run": "run()"}.get(c["route"], "solver"))
    if given:
        mon.count("given energies")
    mon.equal(len(x), len(ref.names(c["rxns"])["ads"]), "number of coverages", **kw)
    val, scale = K.dtheta(x)
    resid = max(abs(v) for v in val)
    noise = ref.mpf(10)**-14*max(scale)   # free sites are formed in double precision by some routes
    if c["route"] == "fsolve":
        noise += ref.mpf(10)**-14*max(v for row in K.jacobian(x)[1] for v in row)*len(val)
    mon.close(ref.conv(s.error), resid, "reported error is not the residual", rtol=0,
              atol=10*len(val)*resid + noise, **kw)
    mon.check(resid <= 10*len(val)*ref.conv(s.error) + noise, "reported error is below the residual",
              error=str(s.error), residual=str(resid), **kw)
    mon.equal([str(ref.conv(v)) for v in s.coverages], [str(ref.conv(v)) for v in x],
              "the solver keeps other coverages than it returned", **kw)
    if c["route"] != "solver":
        mon.equal(str(m.error), str(s.error), "error of the solved model", **kw)
    if c["route"] != "fsolve":
        mon.count(c["root"])
        steady.physical(mon, c, x, slack=ref.mpf(10)**-25)
        tol = c["tol"]*(1 + 1e-6)
        if resid > tol and resid < tol + noise and c["root"] == "MDNewton":
            pass
        else:
            mon.check(resid <= tol, "residual above the tolerance", residual=str(resid), tol=c["tol"], **kw)
        mon.check(s.error <= c["tol"], "reported error above the tolerance", error=str(s.error), **kw)
        # the result is a good guess
        y = s.get_steady_state_cvgs(c0=tuple(x), relative_energies=given)
        mon.count("good initial guesses")
        val2, _ = K.dtheta(y)
        mon.check(max(abs(v) for v in val2) <= tol + noise, "a converged state was not kept", **kw)
        # and the solver offers it as the next one
        good = s.good_guess
        if mon.check(good is not None and len(good) == len(x), "the solver offers no good guess", **kw):
            val3, _ = K.dtheta(good)
            mon.check(max(abs(v) for v in val3) <= tol + noise, "the offered guess is not a good one", **kw)
    if c["route"] != "solver":
        tofs, sc = K.tofs(x)
        for g, w, q in zip(m.TOFs, tofs, sc):
            mon.close(ref.conv(g), w, "turnover frequency of the solved model", rtol=1e-8, atol=noise,
                      scale=q, **kw)
        rf, rr = K.rates(x)
        if all(abs(a) > 1e3*noise for a in rf):
            for g, a, b in zip(m.reversibilities, rf, rr):
                if abs(b/a) < 1e250:
                    mon.close(float(g), float(b/a), "reversibility of the solved model", rtol=1e-6, **kw)
        info = m.model_info
        mon.equal([float(v) for v in x], info["steady_state_coverages"], "coverages in the model info", **kw)
        mon.equal([float(v) for v in m.TOFs], info["TOFs"], "TOFs in the model info", **kw)
        names = ref.names(c["rxns"])
        mon.equal(sorted(names["ads"]), sorted(info["adsorbate_names"]), "adsorbates in the model info", **kw)
        mon.equal(sorted(names["gas"]), sorted(info["gas_names"]), "gases in the model info", **kw)
        mon.equal(list(c["rxns"]), list(info["rxn_expressions"]), "reactions in the model info", **kw)
        mon.equal([str(v) for v in m.reversibilities], [str(v) for v in info["reversibilities"]],
                  "reversibilities in the model info", **kw)
    mon.show({"rxns": c["rxns"], "coverages": [float(v) for v in x], "residual": str(resid)})
