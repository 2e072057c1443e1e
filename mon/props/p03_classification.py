"""P03: species classification and stoichiometry matrices."""
from .. import gen, ref, util

RULE = "a mechanism whose species lists and stoichiometry matrices were compared entry by entry"
MIN = {"mechanisms": 60, "matrix entries": 1000, "repeated species": 10, "multi-site adsorbates": 10,
       "liquids": 5, "adsorbates of transition states only": 5, "adsorbates on three or more sites": 5}


def cases(rng, tier):
    for _ in range(120 if tier == "quick" else 1200):
        rx, d = gen.mechanism(rng, overlap=0.25, repeat=0.3, n=rng.randint(1, 9), extra=0.2,
                              **gen.random_pool_args(rng))
        yield {"rxns": rx, "defs": d}


def run(case, mon):
    import numpy as np
    rx = case["rxns"]
    m = util.mkm(rx, case["defs"], solver=None)
    nm = ref.names(rx)
    mon.count("mechanisms")
    mon.nontrivial(rx)
    mon.equal(tuple(m.adsorbate_names), nm["ads"], "adsorbates", rxns=rx)
    mon.equal(tuple(m.gas_names), nm["gas"], "gases", rxns=rx)
    mon.equal(tuple(m.liquid_names), nm["liquid"], "liquids", rxns=rx)
    mon.equal(tuple(m.site_names), nm["site"], "sites", rxns=rx)
    mon.equal(tuple(m.transition_state_names), nm["ts"], "transition states", rxns=rx)
    if nm["liquid"]:
        mon.count("liquids")
    ends = {f["key"] for r in rx for st in ref.parse_rxn(r)[::2 if "<->" in r else 1] for f in st}
    mon.count("adsorbates of transition states only", bool(set(nm["ads"]) - ends))
    mon.count("adsorbates on three or more sites", any(ref.parse_formula(a)["nsite"] > 2 for a in nm["ads"]))
    if any(ref.parse_formula(a)["nsite"] > 1 for a in nm["ads"]):
        mon.count("multi-site adsorbates")
    got = [[[(f.stoichiometry(), f.species_site()) for f in st] for st in r]
           for r in m.elementary_rxns_list]
    want = [[[(f["stoich"], f["key"]) for f in st] for st in ref.parse_rxn(r)] for r in rx]
    mon.equal(got, want, "elementary reactions list", rxns=rx)
    site, reapro = m.parser.get_stoichiometry_matrices()
    site, reapro = np.asarray(site), np.asarray(reapro)
    cols = list(nm["site"] + nm["ads"]), list(nm["gas"] + nm["liquid"])
    mon.equal(site.shape, (len(rx), len(cols[0])), "shape of the surface matrix", rxns=rx)
    mon.equal(reapro.shape, (len(rx), len(cols[1])), "shape of the fluid matrix", rxns=rx)
    for i, r in enumerate(rx):
        st = ref.parse_rxn(r)
        if any(len({f["key"] for f in s}) < len(s) for s in st):
            mon.count("repeated species")
        left, right = ref.side(st[0]), ref.side(st[-1])
        for mat, names, what in ((site, cols[0], "surface"), (reapro, cols[1], "fluid")):
            for j, sp in enumerate(names):
                mon.count("matrix entries")
                mon.equal(float(mat[i, j]), float(left.get(sp, 0) - right.get(sp, 0)),
                          "entry of the {} stoichiometry matrix".format(what), rxn=r, species=sp)
    mon.show({"rxns": rx, "adsorbates": m.adsorbate_names, "fluid": reapro.tolist()})
