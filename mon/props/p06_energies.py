"""P06: barriers and reaction energies from absolute or relative energies."""
from .. import common, gen, ref, util

RULE = ("a mechanism with random energies whose barriers and reaction energies were recomputed; "
        "distinct mechanisms")
MIN = {"reactions from absolute": 150, "with transition state": 30, "cycles": 10,
       "relative files": 20, "barrierless endothermic": 10, "barriers below an end": 20, "shape errors": 20, "equal ends": 5, "missing species": 60,
       "scripts": 5}


def cases(rng, tier):
    for i in range(120 if tier == "quick" else 1200):
        rx, d = gen.mechanism(rng, overlap=0.2, repeat=0.25, n=rng.randint(2, 8), extra=0.2,
                              **gen.random_pool_args(rng))
        ae = gen.absolute_energies(rng, rx, spread=rng.choice([1.0, 5.0, 50.0]))
        if rng.random() < 0.5:      # many equal energies
            ae = {k: round(v*2)/2 for k, v in ae.items()}
        re = gen.relative_energies(rng, len(rx))
        if rng.random() < 0.1:
            common.write_twice(rng, rx, re)
        for k in range(len(rx)):
            u = rng.random()
            if rng.random() < 0.1:      # all the digits of a calculation, or nearly nothing
                re["dG"][k] += rng.uniform(-1e-5, 1e-5)
                re["Gaf"][k] += rng.uniform(1e-5, 1e-4)
            elif rng.random() < 0.1:
                re["dG"][k] = rng.choice([1e-9, 3e-6, 5e-4, -1e-9])
            if u < 0.3:
                re["Gaf"][k] = 0.0
            elif u < 0.45:      # whatever the user writes is kept: below the reaction energy, negative, tiny
                re["Gaf"][k] = rng.choice([round(0.5*re["dG"][k], 4), -0.05, 1e-6, 0.3*abs(re["dG"][k]) + 1e-3])
        yield {"rxns": rx, "defs": d, "absolute": ae, "relative": re, "from_file": rng.random() < 0.5,
               "short": rng.choice(["Ga", "dG", "both"]), "lacking": rng.randrange(1000), "delta": rng.choice([-1, 1]),
               "prec": rng.choice([30, 50, 100])}


def run(case, mon):
    rx, d = case["rxns"], case["defs"]
    # -- absolute -----------------------------------------------------------
    m = util.mkm(rx, d, parser="AbsoluteEnergyParser", decimal_precision=case["prec"])
    util.with_absolute(m, case["absolute"])
    mon.check(m.has_absolute_energy and m.has_relative_energy, "energy flags after parsing")
    mon.equal(dict(m.absolute_energies), case["absolute"], "absolute energies read")
    r = m.relative_energies
    scale = 1 + max(abs(v) for v in case["absolute"].values())
    mon.nontrivial(rx)
    dG = []
    for i, text in enumerate(rx):
        st = ref.parse_rxn(text)
        E = [ref.state_energy(s, case["absolute"]) for s in st]
        ts = E[1] if len(st) == 3 else max(E[0], E[-1])
        mon.count("reactions from absolute")
        if len(st) == 3:
            mon.count("with transition state")
        mon.count("equal ends", abs(E[0] - E[-1]) < 1e-9)
        n = 1 + sum(f["stoich"] for s in st for f in s)
        kw = dict(rtol=1e-12, scale=scale*n, rxn=text)
        mon.close(r["Gaf"][i], ts - E[0], "forward barrier from absolute energies", **kw)
        mon.close(r["Gar"][i], ts - E[-1], "reverse barrier from absolute energies", **kw)
        mon.close(r["dG"][i], E[-1] - E[0], "reaction energy from absolute energies", **kw)
        mon.close(r["Gaf"][i] - r["Gar"][i], r["dG"][i], "barriers against reaction energy", **kw)
        dG.append(r["dG"][i])
    mon.equal([len(r[k]) for k in ("Gaf", "Gar", "dG")], [len(rx)]*3, "number of energies")
    # A species without an energy can not be taken for one with zero energy.
    keys = sorted(k for k in case["absolute"] if any(f["key"] == k for t in rx for st in ref.parse_rxn(t) for f in st))
    lacking = keys[case["lacking"] % len(keys)]
    m3 = util.mkm(rx, d, parser="AbsoluteEnergyParser", decimal_precision=case["prec"])
    mon.count("missing species")
    mon.raises(lambda: util.with_absolute(m3, {k: v for k, v in case["absolute"].items() if k != lacking}),
               (KeyError, ValueError, IOError, AttributeError), "energies without one of the species were accepted",
               species=lacking, rxns=rx)
    # Hess: combinations of reactions with no net change sum to zero energy
    from .p04_total import nullspace
    nm = ref.names(rx)
    species = sum((list(nm[k]) for k in ("ads", "gas", "liquid", "site")), [])
    S = []
    for text in rx:
        st = ref.parse_rxn(text)
        le, ri = ref.side(st[0]), ref.side(st[-1])
        S.append([le.get(s, 0) - ri.get(s, 0) for s in species])
    for x in nullspace(S):
        mon.count("cycles")
        mon.close(sum(float(c)*g for c, g in zip(x, dG)), 0.0, "energy of a closed cycle of reactions",
                  rtol=1e-11, scale=scale*20*(1 + max(abs(float(c)) for c in x)), rxns=rx)
    mon.show({"rxns": rx, "dG": dG})

    # -- relative -----------------------------------------------------------
    m = util.mkm(rx, d)
    data = {"Ga": case["relative"]["Gaf"], "dG": case["relative"]["dG"]}
    if case["from_file"]:
        with open("rel_e.py", "w") as f:
            if util.chosen(data):
                f.write(util.script(data))
                mon.count("scripts")
            else:
                f.write("Ga, dG = [], []\n")
                for a, b in zip(data["Ga"], data["dG"]):
                    f.write("Ga.append({!r})\ndG.append({!r})\n".format(a, b))
        m.parser.parse_data(filename="rel_e.py")
        mon.count("relative files")
    else:
        m.parser.parse_data(filename="missing.py", energy_data=data)
    r = m.relative_energies
    mon.check(m.has_relative_energy, "relative energy flag after parsing")
    for i in range(len(rx)):
        ga, g = data["Ga"][i], data["dG"][i]
        if ga == 0.0 and g > 0:
            ga = g
            mon.count("barrierless endothermic")
        elif ga < max(g, 0.0):
            mon.count("barriers below an end")
        kw = dict(rtol=1e-12, scale=10, rxn=rx[i])
        mon.close(r["Gaf"][i], ga, "forward barrier read", **kw)
        mon.close(r["dG"][i], g, "reaction energy read", **kw)
        mon.close(r["Gar"][i], ga - g, "reverse barrier from relative energies", **kw)
    # -- wrong shapes -------------------------------------------------------
    bad = {k: list(v) for k, v in data.items()}
    for k in (["Ga", "dG"] if case["short"] == "both" else [case["short"]]):
        bad[k] = bad[k][:-1] if case["delta"] < 0 else bad[k] + [0.1]
    m = util.mkm(rx, d)
    mon.raises(lambda: m.parser.parse_data(filename="missing.py", energy_data=bad), (ValueError,),
               "energies of the wrong length were accepted", short=case["short"])
    mon.check(not m.has_relative_energy, "relative energy flag after a rejected file")
    mon.count("shape errors")
    mon.raises(lambda: m.parser.parse_data(filename="missing.py"), (IOError, OSError),
               "a missing energy file was accepted")
