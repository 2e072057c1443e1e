"""P07: rate constants of transition state and collision theory."""
import math

from .. import gen, ref, thermo, util

RULE = ("a reaction at a temperature whose rate constants were recomputed in independent "
        "60-digit arithmetic; distinct (reaction, temperature, energies)")
MIN = {"TST constants": 300, "detailed balance": 150, "with pressure": 60, "CT adsorption": 60,
       "CT desorption": 20, "CT surface": 10, "CT several molecules": 30, "parameter errors": 20,
       "small reverse barriers": 10, "energies without dG": 60, "hardly any pressure": 10, "reactions written twice": 10}


def tst_case(rng):
    rx, d = gen.mechanism(rng, overlap=0.15, repeat=0.25, n=rng.randint(1, 6),
                          **gen.random_pool_args(rng))
    if rng.random() < 0.2:      # (almost) no pressure
        for v in d.values():
            if "pressure" in v and rng.random() < 0.7:
                v["pressure"] = rng.choice([0.0, 10**rng.uniform(-18, -8)])
    return {"kind": "TST", "rxns": rx, "defs": d, "T": round(rng.uniform(150, 1500), 2),
            "prec": rng.choice([30, 60, 100]), "e": gen.relative_energies(rng, len(rx), -2, 2.5),
            "e2": gen.relative_energies(rng, len(rx), -2, 2.5)}


def ct_case(rng):
    gases = thermo.entropy_gases()
    rx = []
    for g in rng.sample(gases, 3):
        name = g[:-2]
        kind = rng.randrange(5)
        a = "{}_g + *_s".format(name)
        b = "{}_s".format(name)
        if kind == 0:
            rx.append("{} -> {}".format(a, b))
        elif kind == 1:
            rx.append("{} -> {}".format(b, a))
        elif kind == 3:
            n = rng.randint(2, 3)
            rx.append("{1}{0}_g + {1}*_s -> {1}{0}_s".format(name, n))
        elif kind == 4:
            n = rng.randint(2, 3)
            rx.append("{1}{0}_s -> {1}{0}_g + {1}*_s".format(name, n))
        else:
            rx.append("{} + *_t -> {} + *_s".format(b, b[:-2] + "_t"))
    if rng.random() < 0.4:
        rx.append("Ne_g + *_s -> Ne_s")        # no thermodynamic data
    rx = list(dict.fromkeys(rx))
    d = gen.definitions(rng, rx)
    e = {"Gaf": [], "Gar": [], "dG": []}
    T, area = round(rng.uniform(250, 1200), 2), 10**rng.uniform(-20, -18)
    ratio = round(rng.uniform(0.05, 1.0), 3)
    for r in rx:
        g = round(rng.uniform(-1.5, 0.3), 4)
        if any(f["kind"] == "gas" for f in ref.parse_rxn(r)[0]):
            ga = round(rng.choice([0.0, rng.uniform(0, 0.6)]), 4)
        else:
            ga = round(max(g, 0) + rng.uniform(0, 0.8), 4)
        gas = [f for f in ref.parse_rxn(r)[0] if f["kind"] == "gas" and f["name"] != "Ne"]
        if gas and rng.random() < 0.5:      # desorption (almost) without a barrier
            k = collision(ga, ref.P0, thermo.mass(gas[0]["name"]), T, area, ratio)
            g = (equivalent(k, T) + gas[0]["stoich"]*thermo.entropy_correction(gas[0]["key"], ref.P0, T)
                 - round(rng.uniform(-0.02, 0.06), 4))
        e["Gaf"].append(ga)
        e["dG"].append(g)
        e["Gar"].append(ga - g)
    return {"kind": "CT", "rxns": rx, "defs": d, "T": T, "e": e, "area": area, "ratio": ratio}


def collision(Ea, p, mass, T, area, ratio):
    kT = ref.KB_EV*T
    return ratio*math.exp(-Ea/kT)*p*area/math.sqrt(2*math.pi*mass*ref.KB_J*T)


def equivalent(k, T):
    """The free energy barrier that gives the rate constant k."""
    kT = ref.KB_EV*T
    return -kT*math.log(k*ref.H_EV/kT)


def cases(rng, tier):
    for _ in range(70 if tier == "quick" else 700):
        yield tst_case(rng)
        yield ct_case(rng)
    for _ in range(10):      # two channels between the same states, with energies of their own
        c = dict(tst_case(rng), kind="twice")
        k = rng.randrange(len(c["rxns"]))
        c["rxns"] = c["rxns"] + [c["rxns"][k]]
        c["e"] = gen.relative_energies(rng, len(c["rxns"]), -2, 2.5)
        c["first"] = k
        yield c
    for _ in range(20):
        yield {"kind": "errors", "f": round(rng.uniform(1.01, 5), 3), "T": round(rng.uniform(200, 900), 1),
               "Ea": round(rng.uniform(0, 1), 3)}


def run(case, mon):
    {"TST": run_tst, "CT": run_ct, "errors": run_errors, "twice": run_twice}[case["kind"]](case, mon)


def pressures(defs, state):
    p = ref.mpf(1)
    for f in state:
        if f["kind"] == "gas":
            p *= ref.mpf(defs[f["key"]]["pressure"])**f["stoich"]
    return p


def run_tst(case, mon):
    rx, d, T, e = case["rxns"], case["defs"], case["T"], case["e"]
    m = util.mkm(rx, d, temperature=T, decimal_precision=case["prec"])
    util.with_relative(m, e)
    s = m.solver
    s.get_data()
    e = {k: list(v) for k, v in m.relative_energies.items()}
    kf, kr = s.get_rate_constants()
    kf2, kr2 = s.get_rate_constants(relative_energies=case["e2"])
    kf3, kr3 = s.get_rate_constants()
    barriers = {k: case["e2"][k] for k in ("Gaf", "Gar")}
    mon.count("energies without dG")
    mon.equal([[str(v) for v in k] for k in s.get_rate_constants(relative_energies=barriers)],
              [[str(v) for v in k] for k in (kf2, kr2)], "rate constants of energies given without dG", rxns=rx)
    kT = ref.KB_EV*T
    for i, r in enumerate(rx):
        st = ref.parse_rxn(r)
        mon.nontrivial([r, T, e["Gaf"][i]])
        for ks, en, what in (((kf, kr), e, "own"), ((kf2, kr2), case["e2"], "given"),
                             ((kf3, kr3), e, "own, asked again")):
            f, b = ks[0][i], ks[1][i]
            mon.count("TST constants", 2)
            mon.close(ref.conv(f), ref.k_tst(en["Gaf"][i], T),
                      "forward TST constant ({} energies)".format(what), rtol=1e-11, rxn=r, T=T)
            mon.close(ref.conv(b), ref.k_tst(en["Gar"][i], T),
                      "reverse TST constant ({} energies)".format(what), rtol=1e-11, rxn=r, T=T)
            mon.count("detailed balance")
            mon.close(ref.conv(f)/ref.conv(b), ref.ctx.exp(-ref.mpf(en["dG"][i])/ref.mpf(kT)),
                      "detailed balance of the rate constants", rtol=1e-9, rxn=r, T=T)
        for inc in (False, True):
            rf, rr = s.get_rxn_rates_TST(r, m.relative_energies, include_pressure=inc)
            pf, pr = (pressures(d, st[0]), pressures(d, st[-1])) if inc else (1, 1)
            mon.count("hardly any pressure", inc and min(pf, pr) < 1e-7)
            mon.close(ref.conv(rf), ref.k_tst(e["Gaf"][i], T)*pf,
                      "forward TST rate" + (" with pressure" if inc else ""), rtol=1e-10, rxn=r)
            mon.close(ref.conv(rr), ref.k_tst(e["Gar"][i], T)*pr,
                      "reverse TST rate" + (" with pressure" if inc else ""), rtol=1e-10, rxn=r)
            if inc and (pf != 1 or pr != 1):
                mon.count("with pressure")
    # equivalent barrier is the inverse of the constant
    for ga in (0.1, 0.77, 1.9):
        k = float(s.get_kTST(ga, T))
        if k > 1e-250:
            mon.close(s.get_TST_barrier_from_CT(k, T), ga, "equivalent TST barrier", rtol=1e-8, atol=1e-9)
    mon.show({"rxn": rx[0], "T": T, "kf": str(kf[0]), "kr": str(kr[0])})


def run_twice(case, mon):
    rx, T, e = case["rxns"], case["T"], case["e"]
    m = util.mkm(rx, case["defs"], temperature=T, decimal_precision=case["prec"])
    util.with_relative(m, e)
    kfs, krs = m.solver.get_rate_constants()
    mon.equal([len(kfs), len(krs)], [len(rx)]*2, "number of rate constants", rxns=rx)
    mon.nontrivial([rx, T])
    for i in range(len(rx)):
        mon.count("reactions written twice", i == len(rx) - 1)
        for k, en, what in ((kfs[i], e["Gaf"], "forward"), (krs[i], e["Gar"], "reverse")):
            if abs(ref.conv(k)/ref.k_tst(en[i], T) - 1) < 1e-9:
                continue
            if i == len(rx) - 1 and abs(ref.conv(k)/ref.k_tst(en[case["first"]], T) - 1) < 1e-9:
                mon.known_finding("energies-of-a-repeated-reaction", rxn=rx[i], energies=en, got=str(k))
            else:
                mon.violation(what + " TST constant with a reaction written twice", rxns=rx, reaction=i, got=str(k),
                              want=str(ref.k_tst(en[i], T)))


def run_ct(case, mon):
    rx, d, T, e = case["rxns"], case["defs"], case["T"], case["e"]
    m = util.mkm(rx, d, temperature=T, rate_algo="CT", unitcell_area=case["area"],
                 active_ratio=case["ratio"], corrector="ThermodynamicCorrector")
    util.with_relative(m, e)
    s = m.solver
    s.get_data()
    e = {k: list(v) for k, v in m.relative_energies.items()}
    kfs, krs = s.get_rate_constants()
    for i, r in enumerate(rx):
        st = ref.parse_rxn(r)
        gi = [f for f in st[0] if f["kind"] == "gas"]
        gf = [f for f in st[-1] if f["kind"] == "gas"]
        mon.nontrivial([r, T, e["Gaf"][i]])
        got = {}
        several = any(f["stoich"] > 1 for f in gi + gf)
        mon.count("CT several molecules", several)
        for inc in (False,) if several else (False, True):
            rf, rr = s.get_rxn_rates_CT(r, m.relative_energies, include_pressure=inc)
            got[inc] = float(rf), float(rr)
            if gi:
                g = gi[0]
                p = ref.P0*(d[g["key"]]["pressure"] if inc else 1.0)
                mon.count("CT adsorption")
                want = collision(e["Gaf"][i], p, thermo.mass(g["name"]), T, case["area"], case["ratio"])
                mon.close(float(rf), want, "collision rate of adsorption", rtol=1e-9, rxn=r, pressure=inc)
                corr = thermo.entropy_correction(g["key"], p, T)
                gar = equivalent(want, T) - (e["dG"][i] - g["stoich"]*corr)
                mon.count("small reverse barriers", 1e-4 < gar < 0.06)
                gar = max(0.0, gar)
                mon.close(float(rr), float(ref.k_tst(gar, T)), "desorption rate opposite to collisions",
                          rtol=1e-7, rxn=r, pressure=inc)
            elif gf:
                g = gf[0]
                p = ref.P0*(d[g["key"]]["pressure"] if inc else 1.0)
                mon.count("CT desorption")
                corr = thermo.entropy_correction(g["key"], p, T)
                mon.close(float(rf), float(ref.k_tst(e["Gaf"][i], T)), "desorption rate", rtol=1e-9,
                          rxn=r, pressure=inc)
                mon.close(float(rr), float(ref.k_tst(e["Gar"][i] - g["stoich"]*corr, T)),
                          "adsorption rate opposite to desorption", rtol=1e-7, rxn=r, pressure=inc)
            else:
                mon.count("CT surface")
                mon.close(float(rf), float(ref.k_tst(e["Gaf"][i], T)), "surface reaction rate", rtol=1e-9,
                          rxn=r)
                mon.close(float(rr), float(ref.k_tst(e["Gar"][i], T)), "surface reaction rate", rtol=1e-9,
                          rxn=r)
        mon.close(float(kfs[i]), got[False][0], "forward rate constant", rtol=1e-12, rxn=r)
        mon.close(float(krs[i]), got[False][1], "reverse rate constant", rtol=1e-12, rxn=r)
        if gi and not several and thermo.known_entropy(gi[0]["key"]):
            p = d[gi[0]["key"]]["pressure"]
            mon.close(got[True][0]/got[False][0], p, "collision rate is not proportional to pressure",
                      rtol=1e-9, rxn=r)
    mon.show({"rxns": rx, "T": T, "kf": [float(k) for k in kfs]})
    # an area is needed
    m2 = util.mkm(rx, d, temperature=T, rate_algo="CT", corrector="ThermodynamicCorrector")
    util.with_relative(m2, case["e"])
    m2.solver.get_data()
    mon.raises(m2.solver.get_rate_constants, (AttributeError,), "collision theory without a unit cell area")


def run_errors(case, mon):
    from scaks.errors.error import ParameterError
    from scaks.solvers.solver_base import SolverBase
    kw = dict(Ea=case["Ea"], Auc=1e-19, m=4e-26, T=case["T"])
    mon.nontrivial(case)
    mon.count("parameter errors")
    mon.raises(lambda: SolverBase.get_kCT(act_ratio=case["f"], **kw), (ParameterError,),
               "an active area ratio above 1 was accepted")
    mon.raises(lambda: SolverBase.get_kCT(act_ratio=0.5, f=case["f"], **kw), (ParameterError,),
               "a sticking factor above 1 was accepted")
    a = SolverBase.get_kCT(act_ratio=0.5, f=0.5, **kw)
    b = SolverBase.get_kCT(act_ratio=1.0, f=1.0, **kw)
    mon.close(a*4, b, "sticking factors", rtol=1e-12)
    m = util.mkm(["CO_g + *_s -> CO_s"], {"CO_g": {"pressure": 1.0},
                                          "*_s": {"site_name": "s", "type": "site", "total": 1.0}},
                 rate_algo="XX")
    util.with_relative(m, {"Gaf": [0.1], "dG": [0.0]})
    mon.raises(m.solver.get_rate_constants, (ValueError,), "an unknown rate algorithm was accepted")
