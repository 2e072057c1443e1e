"""P08: thermodynamic corrections of gas energies and of relative energies."""
import copy
import math

from .. import gen, ref, thermo, util

RULE = ("a gas at a temperature, or a corrected mechanism, whose corrections were recomputed from "
        "pinned literature data")
MIN = {"shomate values": 200, "entropy values": 150, "not a gas or unknown": 60,
       "corrected reactions": 150, "coefficients above one": 20, "ends of the data": 20}
ASSUMPTIONS = ["Shomate and partition function parameters are pinned in mon/data/literature.json",
               "a temperature shared by two parameter ranges is not judged"]


def mech(rng):
    """Reactions over gases with data, with coefficients and transition states."""
    pool = ["CO", "CO2", "H2", "O2", "H2O", "N2", "NO", "NH3", "CH4", "N2O", "Ne2"]
    rx = []
    for name in rng.sample(pool, rng.randint(1, 4)):
        el = sorted(ref.parse_elements(name).items())
        n = rng.choice([1, 1, 2, 3])
        kind = rng.randrange(4)
        c = str(n) if n > 1 else ""
        gas = "{}{}_g".format(c, name) if rng.random() < 0.7 or n == 1 else \
            " + ".join(["{}_g".format(name)]*n)
        if kind == 0:
            rx.append("{} + {}*_s -> {}{}_s".format(gas, c, c, name))
        elif kind == 1:
            rx.append("{}{}_s -> {} + {}*_s".format(c, name, gas, c))
        elif kind == 2 and n == 1:
            e, k = el[0]
            left = e + (str(k - 1) if k > 2 else "") if k > 1 else e
            right = "".join(a + (str(b) if b > 1 else "") for a, b in
                            ([(e, 1)] if k > 1 else []) + el[1:])
            rx.append("{} + *_s <-> {}-{}_s -> {}_s".format(gas, left, right, name))
        else:
            rx.append("{}{}_s + {}*_t -> {}{}_t + {}*_s".format(c, name, c, c, name, c))
    return list(dict.fromkeys(rx))


def cases(rng, tier):
    n = 100 if tier == "quick" else 1000
    for _ in range(n):
        rx = mech(rng)
        yield {"rxns": rx, "defs": gen.definitions(rng, rx), "T": round(rng.uniform(80, 1900), 2),
               "e": gen.relative_energies(rng, len(rx)), "method": rng.choice(["shomate", "entropy"]),
               "T2": round(rng.uniform(80, 5900), 2), "p": 10**rng.uniform(1, 7), "q": 10**rng.uniform(1, 7),
               "heavier": rng.choice([2, 3.5, rng.uniform(0.2, 5)])}


def run(case, mon):
    rx, d, T = case["rxns"], case["defs"], case["T"]
    m = util.mkm(rx, d, temperature=T, corrector="ThermodynamicCorrector")
    util.with_relative(m, case["e"])
    c = m.corrector
    nm = ref.names(rx)
    T2 = case["T2"]
    # -- single values ------------------------------------------------------
    for g in thermo.shomate_gases():
        for t in (T2, T):
            if thermo.boundary(g, t):
                continue
            mon.count("shomate values")
            got = c.shomate_correction(g, t)
            mon.close(float(got), thermo.shomate_correction(g, t), "Shomate correction", rtol=1e-9,
                      atol=1e-12, gas=g, T=t)
            mon.nontrivial(["s", g, t])
        for t in thermo.ends(g):
            if not thermo.boundary(g, t):
                mon.count("ends of the data")
                mon.close(float(c.shomate_correction(g, t)), thermo.shomate_correction(g, t),
                          "Shomate correction at the end of a range", rtol=1e-9, atol=1e-12, gas=g, T=t)
        if not thermo.boundary(g, T):
            mon.close(float(c.shomate_correction(g)), thermo.shomate_correction(g, T),
                      "Shomate correction at the model's temperature", rtol=1e-9, atol=1e-12, gas=g, T=T)
    for g in thermo.entropy_gases():
        mon.count("entropy values")
        mon.nontrivial(["e", g, T2])
        ms = thermo.mass(g[:-2])
        p, q = case["p"], case["q"]
        a = c.entropy_correction(g, m=ms, p=p, T=T2)
        mon.close(a, thermo.entropy_correction(g, p, T2), "entropy correction", rtol=1e-9, atol=1e-11,
                  gas=g, T=T2, p=p)
        mon.close(c.entropy_correction(g, p=p, T=T2), a, "entropy correction with the species mass",
                  rtol=1e-9, atol=1e-11, gas=g)
        k = case["heavier"]
        h = c.entropy_correction(g, m=ms*k, p=p, T=T2)
        mon.close(h - a, -1.5*ref.KB_EV*T2*math.log(k), "mass dependence of the entropy correction", rtol=1e-7,
                  atol=1e-9, gas=g, T=T2)
        b = c.entropy_correction(g, m=ms, p=q, T=T2)
        mon.close(b - a, ref.KB_EV*T2*math.log(q/p), "pressure dependence of the entropy correction",
                  rtol=1e-7, atol=1e-9, gas=g, T=T2)
        mon.raises(lambda: c.entropy_correction(g, m=ms, p=0.0, T=T2), (ZeroDivisionError, ValueError),
                   "an entropy correction at no pressure", gas=g)
        if g in nm["gas"]:
            mon.close(c.entropy_correction(g), thermo.entropy_correction(
                g, ref.P0*d[g]["pressure"], T), "entropy correction at model conditions", rtol=1e-9,
                atol=1e-11, gas=g)
    for sp in ["CO_s", "*_s", "H2O_l", "O2_2t", "Xx_s"] + list(nm["ads"]):
        mon.count("not a gas or unknown")
        mon.equal(float(c.shomate_correction(sp)), 0.0, "Shomate correction of a species that is no gas",
                  species=sp)
        mon.equal(float(c.entropy_correction(sp)), 0.0, "entropy correction of a species that is no gas",
                  species=sp)
    for sp in ("Ne2_g", "ClF_g"):
        mon.count("not a gas or unknown")
        mon.equal(float(c.shomate_correction(sp)), 0.0, "Shomate correction without parameters", species=sp)
        mon.equal(float(c.entropy_correction(sp)), 0.0, "entropy correction without data", species=sp)
    # -- relative energies --------------------------------------------------
    method = case["method"]
    if method == "shomate":
        if any(thermo.boundary(g, T) for g in nm["gas"]):
            return
        val = {g: thermo.shomate_correction(g, T) for g in nm["gas"]}
    else:
        val = {g: thermo.entropy_correction(g, ref.P0*d[g]["pressure"], T) for g in nm["gas"]}
    before = copy.deepcopy(dict(m.relative_energies))
    given = copy.deepcopy(before)
    after = c.correct_relative_energies(given, method=method)
    mon.equal(dict(m.relative_energies), before, "correcting a copy changed the model's energies")
    mon.nontrivial(["m", rx, T, method])
    for i, r in enumerate(rx):
        st = ref.parse_rxn(r)
        delta = [sum(f["stoich"]*val.get(f["key"], 0.0) for f in s if f["kind"] == "gas") for s in st]
        if any(f["stoich"] > 1 or sum(x["key"] == f["key"] for x in s) > 1
               for s in st for f in s if f["kind"] == "gas" and val[f["key"]] != 0):
            mon.count("coefficients above one")
        mon.count("corrected reactions")
        dG = before["dG"][i] + delta[-1] - delta[0]
        if len(st) == 3:
            gaf = before["Gaf"][i] + delta[1] - delta[0]
            gar = before["Gar"][i] + delta[1] - delta[-1]
        else:
            gaf, gar = max(0.0, dG), max(0.0, -dG)
        kw = dict(rtol=1e-9, atol=1e-9, rxn=r, method=method, T=T)
        mon.close(after["dG"][i], dG, "corrected reaction energy", **kw)
        mon.close(after["Gaf"][i], gaf, "corrected forward barrier", **kw)
        mon.close(after["Gar"][i], gar, "corrected reverse barrier", **kw)
        mon.close(after["Gaf"][i] - after["Gar"][i], after["dG"][i], "corrected barriers against dG", **kw)
    mon.show({"rxns": rx, "method": method, "dG": [before["dG"], list(after["dG"])]})
    mon.raises(lambda: c.correct_relative_energies(copy.deepcopy(before), method="nothing"), (ValueError,),
               "an unknown correction method was accepted")
