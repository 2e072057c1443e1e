"""P31: generated energy templates are complete and loadable."""
import re

from .. import gen, kmc, ref, util

NEEDS_KMCLIB = True
RULE = ("a template generated for a model, filled in with random values and loaded back into a model; distinct "
        "(mechanism, kind of template)")
MIN = {"relative templates": 200, "absolute templates": 200, "reactions": 600, "species": 1500, "loaded": 400,
       "kmc models": 20, "liquids": 20, "several sites": 40, "unfilled loaded": 100}


def cases(rng, tier):
    for k in range(240 if tier == "quick" else 5000):
        rx, d = gen.mechanism(rng, overlap=0.15, repeat=0.25, n=rng.randint(1, 8), extra=0.2, **gen.random_pool_args(rng))
        if rng.random() < 0.3:
            rx = [r.replace(" + ", rng.choice(["+", " +  "])) for r in rx]
        nm = ref.names(rx)
        c = {"rxns": rx, "defs": d, "e": gen.relative_energies(rng, len(rx)),
             "abs": gen.absolute_energies(rng, rx), "kmc": k % 8 == 0,
             "names": [rng.choice([None, "e1.py"]), rng.choice([None, "sub/e2.py", "e2"])],
             "digits": rng.choice([2, 6, 12]), "nm": nm}
        for k in ("Gaf", "dG"):
            c["e"][k] = [round(x + 1e-7*rng.random(), c["digits"]) for x in c["e"][k]]
        yield c


def model(case):
    if case["kmc"]:
        return kmc.model(dict(case, T=500.0, setup={}), parse=False)
    return util.mkm(case["rxns"], case["defs"])


def state(m):
    return repr([m.gas_names, m.liquid_names, m.adsorbate_names, m.transition_state_names, m.site_names,
                 m.rxn_expressions, sorted(m.species_definitions.items(), key=str)])


def run(case, mon):
    import os
    os.mkdir("sub")
    nm = case["nm"]
    mon.nontrivial([case["rxns"], case["kmc"]])
    mon.count("kmc models", case["kmc"])
    mon.count("liquids", bool(nm["liquid"]))
    mon.count("several sites", len(nm["site"]) > 1)
    m = model(case)
    before = state(m)
    # relative
    name = case["names"][0] or "rel_energy.py"
    for _ in range(2):      # generating again changes nothing
        m.generate_relative_energies_file(*([name] if case["names"][0] else []))
        with open(name) as f:
            text = f.read()
        mon.count("relative templates")
        blocks = re.findall(r"^# (.*)\nGa\.append\(\)\ndG\.append\(\)$", text, re.M)
        mon.equal(blocks, case["rxns"], "reactions of the relative template")
        mon.equal([text.count("Ga.append("), text.count("dG.append(")], [len(case["rxns"])]*2,
                  "entries of the relative template")
        mon.count("reactions", len(blocks))
    ga, dg = list(case["e"]["Gaf"]), list(case["e"]["dG"])
    lines = []
    for line in text.split("\n"):
        if line == "Ga.append()":
            line = "Ga.append({!r})".format(ga.pop(0))
        elif line == "dG.append()":
            line = "dG.append({!r})".format(dg.pop(0))
        lines.append(line)
    with open(name, "w") as f:
        f.write("\n".join(lines))
    b = model(case)
    if case["kmc"]:
        from scaks.parsers.relative_energy_parser import RelativeEnergyParser
        RelativeEnergyParser(b).parse_data(name)
    else:
        b.parser.parse_data(filename=name)
    mon.count("loaded")
    want = []
    for x, y in zip(case["e"]["Gaf"], case["e"]["dG"]):
        want.append(y if abs(x) < 1e-10 and y > 0 else x)
    mon.equal(list(b.relative_energies["Gaf"]), want, "barriers loaded from a filled template")
    mon.equal(list(b.relative_energies["dG"]), case["e"]["dG"], "reaction energies loaded from a filled template")
    # absolute
    name = case["names"][1] or "abs_energy.py"
    m.generate_absolute_energies_file(*([name] if case["names"][1] else []))
    with open(name) as f:
        text = f.read()
    mon.count("absolute templates")
    keys = re.findall(r"^ *'([^']*)': 0\.0, *# eV$", text, re.M)
    species = nm["gas"] + nm["liquid"] + nm["ads"] + nm["ts"] + nm["site"]
    mon.equal(sorted(keys), sorted(species), "species of the absolute template")
    order = [[k for k in keys if k in nm[x]] for x in ("gas", "liquid", "ads", "ts", "site")]
    mon.equal(keys, sum(order, []), "the kinds of species are mixed in the absolute template")
    mon.count("species", len(keys))
    mon.equal(kmc.load(name), {"absolute_energies": dict.fromkeys(species, 0.0)}, "unfilled absolute template")
    mon.equal(state(m), before, "generating a template changed the model")
    if not case["kmc"]:
        b = util.mkm(case["rxns"], case["defs"], parser="AbsoluteEnergyParser")
        b.parser.parse_data(filename=name)
        mon.count("unfilled loaded")
        mon.equal([float(x) for x in b.relative_energies["dG"]], [0.0]*len(case["rxns"]),
                  "reaction energies of an unfilled template")
        text = re.sub(r"'([^']*)': 0\.0", lambda g: "'{}': {!r}".format(g.group(1), case["abs"][g.group(1)]), text)
        with open(name, "w") as f:
            f.write(text)
        b = util.mkm(case["rxns"], case["defs"], parser="AbsoluteEnergyParser")
        b.parser.parse_data(filename=name)
        mon.count("loaded")
        mon.equal({k: float(v) for k, v in b.absolute_energies.items()}, case["abs"],
                  "energies loaded from a filled absolute template")
        for r, x in zip(case["rxns"], b.relative_energies["dG"]):
            st = ref.parse_rxn(r)
            mon.close(x, ref.state_energy(st[-1], case["abs"]) - ref.state_energy(st[0], case["abs"]),
                      "reaction energy from a filled absolute template", rtol=0, atol=1e-9, reaction=r)
    mon.show({"rxns": case["rxns"], "species": len(species)})
