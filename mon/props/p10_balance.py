"""P10: coverages change with the stoichiometry of the net rates; sites are conserved."""
from .. import ref
from ..common import build, energies, kinetics_case, reference, unusual, vectors

RULE = "(mechanism, coverages) whose coverage derivatives and site balance were recomputed"
MIN = {"derivatives": 400, "site balances": 150, "repeated species": 10, "multi-site adsorbate": 8,
       "species on both sides": 8, "coefficient above one": 20, "crowded adsorbates": 1}


def cases(rng, tier):
    for i in range(90 if tier == "quick" else 1000):
        yield kinetics_case(rng, n=rng.randint(14, 24) if i % 11 == 10 else None)


def run(case, mon):
    m = build(case)
    s = m.solver
    own = energies(m)
    nm = ref.names(case["rxns"])
    mon.count("crowded adsorbates", sum(sum(a in {f["key"] for s in ref.parse_rxn(r) for f in s} for r in case["rxns"]) > 12
                                        for a in nm["ads"]))
    for u in unusual(case):
        mon.count(u)
    for given in (None, case["e2"]):
        e = own if given is None else given
        K = reference(case, e)
        for c, exact in vectors(case):
            tol = 1e-11 if exact else 1e-7
            want, scale = K.dtheta(c)
            got = s.steady_state_function(c, relative_energies=given)
            kw = dict(rxns=case["rxns"], coverages=str([float(x) for x in c]))
            mon.nontrivial([case["rxns"], str(c), given is None])
            mon.equal(len(got), len(want), "number of derivatives")
            for i, a in enumerate(nm["ads"]):
                mon.count("derivatives")
                mon.close(ref.conv(got[i]), want[i], "rate of coverage change", rtol=tol, scale=scale[i],
                          adsorbate=a, **kw)
            # conservation, from what the code itself reports
            net = [ref.conv(x) for x in s.get_net_rates(c, relative_energies=given)]
            rf, rr = K.rates(c)
            big = sum(abs(x) + abs(y) for x, y in zip(rf, rr))
            for site in nm["site"]:
                covered = sum(ref.parse_formula(a)["nsite"]*ref.conv(v) for a, v in zip(nm["ads"], got)
                              if "*_" + ref.parse_formula(a)["site"] == site)
                free = sum(K.net_stoich(i, site)*v for i, v in enumerate(net))
                mon.count("site balances")
                mon.close(covered, -free, "covered and free sites do not balance", rtol=10*tol,
                          scale=20*big, site=site, **kw)
            res = s.get_residual(c, relative_energies=given)
            mon.close(ref.conv(res), max(abs(w) for w in want), "residual", rtol=tol, scale=max(scale), **kw)
            mon.show({"rxns": case["rxns"], "dtheta/dt": [str(float(x)) for x in got]})
