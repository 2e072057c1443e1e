"""P09: elementary rates follow the law of mass action."""
from .. import ref
from ..common import build, energies, kinetics_case, reference, unusual, vectors

RULE = "(mechanism, coverages) whose forward, reverse and net rates were recomputed independently"
MIN = {"rates": 500, "reversibilities": 100, "repeated species": 10, "liquid": 5,
       "multi-site adsorbate": 8, "species on both sides": 8, "several sites": 10}


def cases(rng, tier):
    for i in range(90 if tier == "quick" else 1000):
        yield kinetics_case(rng, n=rng.randint(14, 24) if i % 11 == 10 else None)


def run(case, mon):
    m = build(case)
    s = m.solver
    own = energies(m)
    for u in unusual(case):
        mon.count(u)
    for given in (None, case["e2"]):
        e = own if given is None else given
        K = reference(case, e)
        for c, exact in vectors(case):
            tol = 1e-11 if exact else 1e-7
            rf, rr = K.rates(c)
            gf, gr = s.get_rates(c, relative_energies=given)
            net = s.get_net_rates(c, relative_energies=given)
            mon.nontrivial([case["rxns"], str(c), given is None])
            mon.equal((len(gf), len(gr), len(net)), (len(rf),)*3, "number of rates")
            for i, r in enumerate(case["rxns"]):
                mon.count("rates", 2)
                kw = dict(rxn=r, coverages=str([float(x) for x in c]))
                mon.close(ref.conv(gf[i]), rf[i], "forward rate", rtol=tol, **kw)
                mon.close(ref.conv(gr[i]), rr[i], "reverse rate", rtol=tol, **kw)
                mon.close(ref.conv(net[i]), rf[i] - rr[i], "net rate", rtol=tol,
                          scale=abs(rf[i]) + abs(rr[i]), **kw)
                mon.check(gf[i] >= 0 and gr[i] >= 0, "negative rate at physical coverages", **kw)
            if all(v > 0 for v in rf):
                rev = s.get_reversibilities(gf, gr)
                for i, r in enumerate(case["rxns"]):
                    mon.count("reversibilities")
                    want = rr[i]/rf[i]
                    if 1e-290 < want < 1e290:
                        mon.close(float(rev[i]), float(want), "reversibility", rtol=max(tol, 1e-9), rxn=r)
            mon.show({"rxns": case["rxns"], "forward": [str(float(x)) for x in gf]})
    mon.raises(lambda: s.get_reversibilities([1.0, 2.0], [1.0]), (ValueError,),
               "reversibilities of different numbers of rates")
