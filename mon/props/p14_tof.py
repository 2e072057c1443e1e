"""P14: turnover frequencies: net production, element balance, equilibrium."""
from .. import core, gen, ref, steady, util
from ..common import build as kbuild, energies, kinetics_case, mp_coverages, reference, vectors
from .p04_total import nullspace

RULE = ("a turnover evaluation that was recomputed, or a physical law (element balance at the steady "
        "state, zero turnover at equilibrium, reversibility product = Q/K) that was tested on it")
MIN = {"turnover frequencies": 200, "element balances": 30, "equilibria": 40, "closed routes": 20,
       "frozen": 30, "reversibilities": 100}
CASE_TIMEOUT = 40
MAX_SKIP = 0.25


def cases(rng, tier):
    n = 60 if tier == "quick" else 600
    for _ in range(n):
        c = kinetics_case(rng)
        c["kind"] = "any"
        if rng.random() < 0.25:      # hardly anything happens
            c["T"] = round(rng.uniform(30, 200), 2)
            for e in (c["e"], c["e2"]):
                more = round(rng.uniform(0.5, 1.5), 4)
                for k in ("Gaf", "Gar"):
                    e[k] = [v + more for v in e[k]]
        yield c
    for _ in range(n):
        c = equilibrium_case(rng)
        c["kind"] = "equilibrium"
        yield c
    for _ in range(n):
        c = steady.case(rng, random_mechs=0.2)
        c["kind"] = "steady"
        yield c


def equilibrium_case(rng):
    while True:
        c = steady.case(rng, random_mechs=0.5)
        nm = ref.names(c["rxns"])
        if all(ref.parse_formula(a)["nsite"] == 1 for a in nm["ads"]):
            break
    kT = ref.KB_EV*c["T"]
    import math
    elems = sorted({e for k in nm["ads"] + nm["gas"] + nm["liquid"]
                    for e in ref.parse_formula(k)["elements"]})
    # chemical potentials near the gas energies
    mu = {e: rng.uniform(-0.3, 0.3) for e in elems}

    def chem(k):
        return sum(mu[e]*n for e, n in ref.parse_formula(k)["elements"].items())
    for k in nm["gas"] + nm["liquid"]:
        p = math.exp(rng.uniform(-3, 2))
        c["abs"][k] = chem(k) - kT*math.log(p)
        c["defs"][k] = {"pressure" if k.endswith("_g") else "concentration": p}
    for k in nm["ads"]:
        c["abs"][k] = chem(k) + rng.uniform(-0.15, 0.15)
    for r in c["rxns"]:
        st = ref.parse_rxn(r)
        if len(st) == 3:
            for f in st[1]:
                if f["kind"] == "ts":
                    ends = max(ref.state_energy(st[0], c["abs"]), ref.state_energy(st[-1], c["abs"]))
                    c["abs"][f["key"]] = max(ends + 0.1, c["abs"][f["key"]])
    eq = {}
    for s in nm["site"]:
        tot = c["defs"][s]["total"]
        ads = [a for a in nm["ads"] if "*_" + ref.parse_formula(a)["site"] == s]
        K = {a: math.exp(-(c["abs"][a] - chem(a))/kT) for a in ads}
        free = tot/(1 + sum(K.values()))
        for a in ads:
            eq[a] = K[a]*free
    c["eq"] = [eq[a] for a in nm["ads"]]
    return c


def run(case, mon):
    {"any": run_any, "equilibrium": run_eq, "steady": run_steady}[case["kind"]](case, mon)


def run_any(case, mon):
    m = kbuild(case)
    s = m.solver
    own = energies(m)
    nm = ref.names(case["rxns"])
    fluids = nm["gas"] + nm["liquid"]
    if not fluids:
        return
    for given in (None, case["e2"]):
        e = given or own
        K = reference(case, e)
        for c, exact in vectors(case):
            want, scale = K.tofs(c)
            got = s.get_tof(c, relative_energies=given)
            mon.nontrivial([case["rxns"], str(c), given is None])
            mon.equal(len(got), len(want), "number of turnover frequencies", rxns=case["rxns"])
            for g, w, q, sp in zip(got, want, scale, fluids):
                mon.count("turnover frequencies")
                mon.count("frozen", 0 < q < 1e-30)
                mon.close(ref.conv(g), w, "turnover frequency", rtol=1e-11 if exact else 1e-7, scale=q,
                          species=sp, rxns=case["rxns"])
                if sp in nm["gas"]:
                    one = s.get_tof(c, relative_energies=given, gas_name=sp)
                    mon.close(ref.conv(one), ref.conv(g), "turnover frequency of one gas", rtol=1e-12, species=sp)
            rf, rr = K.rates(c)
            if exact and all(rf):
                gf, gr = s.get_rates(c, relative_energies=given)
                if all(b/a < 1e100 for a, b in zip(rf, rr)):
                    for g, a, b in zip(s.get_reversibilities(gf, gr), rf, rr):
                        mon.count("reversibilities")
                        mon.close(g, b/a, "reversibility", rtol=1e-9, atol=1e-300, rxns=case["rxns"])
            # routes: the product of reversibilities is Q/K
            rf, rr = s.get_rates(c, relative_energies=given)
            surf = list(nm["site"] + nm["ads"])
            S = [[K.net_stoich(i, x) for x in surf] for i in range(len(case["rxns"]))]
            if exact and all(v > 0 for v in rf) and all(v > 0 for v in rr):
                kT = ref.mpf(ref.KB_EV)*ref.mpf(case["T"])
                for x in nullspace(S):
                    mon.count("closed routes")
                    lhs = sum(ref.mpf(v.numerator)/v.denominator*ref.ctx.log(ref.conv(b)/ref.conv(a))
                              for v, a, b in zip(x, rf, rr))
                    rhs = ref.mpf(0)
                    for i, v in enumerate(x):
                        v = ref.mpf(v.numerator)/v.denominator
                        rhs += v*ref.mpf(e["dG"][i])/kT
                        for sp in nm["gas"]:
                            rhs += v*K.net_stoich(i, sp)*ref.ctx.log(ref.mpf(case["defs"][sp]["pressure"]))
                        for sp in nm["liquid"]:
                            rhs += v*K.net_stoich(i, sp)*ref.ctx.log(ref.mpf(case["defs"][sp]["concentration"]))
                    mon.close(lhs, rhs, "product of reversibilities along a closed route", rtol=0,
                              atol=1e-9*(1 + sum(abs(float(v)) for v in x)*60), rxns=case["rxns"])
    from scaks.errors.error import ParameterError
    mon.raises(lambda: s.get_tof(c, gas_name="Xx_g"), (ParameterError,), "turnover of an unknown gas")


def run_eq(c, mon):
    m = steady.build(c, max_rootfinding_iterations=60)
    s = m.solver
    x = mp_coverages(c["eq"])
    K = steady.kinetics(c)
    rf, rr = s.get_rates(x)
    tofs = s.get_tof(x)
    _, sc = K.tofs(x)
    mon.nontrivial([c["rxns"], c["abs"]])
    mon.count("equilibria")
    kw = dict(rxns=c["rxns"])
    for i, r in enumerate(c["rxns"]):
        mon.close(ref.conv(rf[i]), ref.conv(rr[i]), "a reaction is not balanced at equilibrium", rtol=1e-8,
                  scale=abs(rf[i]) + abs(rr[i]), rxn=r)
    for t, q in zip(tofs, sc):
        mon.close(ref.conv(t), 0, "turnover at equilibrium", rtol=1e-8, scale=q, **kw)
    d = s.steady_state_function(x)
    _, sc = K.dtheta(x)
    for v, q in zip(d, sc):
        mon.close(ref.conv(v), 0, "coverages change at equilibrium", rtol=1e-8, scale=q, **kw)
    mon.show({"rxns": c["rxns"], "equilibrium": c["eq"], "tofs": [str(float(t)) for t in tofs]})


def run_steady(c, mon):
    m = steady.build(c, tolerance=1e-20, max_rootfinding_iterations=60)
    try:
        x = m.solver.get_steady_state_cvgs(c0=tuple(c["c0"]))
    except steady.GiveUp:
        raise core.Skip("not converged")
    nm = ref.names(c["rxns"])
    fluids = nm["gas"] + nm["liquid"]
    if not fluids:
        return
    tofs = m.solver.get_tof(x)
    K = steady.kinetics(c)
    _, sc = K.tofs(x)
    mon.nontrivial([c["rxns"], c["abs"]])
    elems = sorted({e for k in fluids for e in ref.parse_formula(k)["elements"]})
    for e in elems:
        n = [ref.parse_formula(k)["elements"].get(e, 0) for k in fluids]
        tot = sum(ref.conv(t)*k for t, k in zip(tofs, n))
        mon.count("element balances")
        mon.close(tot, 0, "an element is created or lost at the steady state", rtol=1e-12, atol=1e-15,
                  scale=sum(q*k for q, k in zip(sc, n)), element=e, rxns=c["rxns"])
    # net rates of a steady state are a combination of closed routes
    net = [ref.conv(v) for v in m.solver.get_net_rates(x)]
    rf, rr = K.rates(x)
    for sp in list(nm["site"]):
        v = sum(K.net_stoich(i, sp)*net[i] for i in range(len(net)))
        q = sum(abs(K.net_stoich(i, sp))*(rf[i] + rr[i]) for i in range(len(net)))
        mon.close(v, 0, "free sites change at the steady state", rtol=1e-12, atol=1e-15, scale=q,
                  rxns=c["rxns"])
