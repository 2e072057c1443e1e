"""Shared pieces of the kinetics checks."""
import random

from . import gen, ref, util


def kinetics_case(rng, overlap=0.15, repeat=0.2, n=None, prec=None, coverages=3, emin=-0.8, emax=1.6):
    rx, d = gen.mechanism(rng, overlap=overlap, repeat=repeat, n=n or rng.randint(1, 7),
                          **gen.random_pool_args(rng))
    for s in sorted(ref.names(rx)["site"]):
        if rng.random() < 0.12:
            d[s]["total"] = rng.choice([1.5, 2.0])
    if rng.random() < 0.1:      # a species that is not fed
        for k in d:
            for x in ("pressure", "concentration"):
                if x in d[k] and rng.random() < 0.5:
                    d[k][x] = 0.0
    e, e2 = gen.relative_energies(rng, len(rx), emin, emax), gen.relative_energies(rng, len(rx), emin, emax)
    if rng.random() < 0.12:
        write_twice(rng, rx, e, e2)
    return {"rxns": rx, "defs": d, "T": round(rng.uniform(300, 900), 2),
            "prec": prec or rng.choice([30, 50, 100]),
            "e": e, "e2": e2,
            "cvgs": [gen.coverages(rng, rx, d) for _ in range(coverages)]}


def write_twice(rng, rxns, *energies):
    """Write one of the reactions a second time (two equal channels), with the same energies."""
    k, i = rng.randrange(len(rxns)), rng.randrange(len(rxns) + 1)
    rxns.insert(i, rxns[k])
    for e in energies:
        for v in e.values():
            v.insert(i, v[k])


def build(case, **kw):
    m = util.mkm(case["rxns"], case["defs"], temperature=case["T"],
                 decimal_precision=case["prec"], **kw)
    util.with_relative(m, case["e"])
    m.solver.get_data()
    return m


def energies(m):
    return {k: list(v) for k, v in m.relative_energies.items()}


def reference(case, e, cls=ref.Kinetics):
    return cls(case["rxns"], case["defs"], case["T"], e["Gaf"], e["Gar"])


def mp_coverages(cvgs):
    import mpmath
    return tuple(mpmath.mpf(c) for c in cvgs)


def vectors(case):
    """(coverages, is exact) in the number types users pass."""
    for k, c in enumerate(case["cvgs"]):
        if k % 3 == 2:
            yield tuple(c), False
        else:
            yield mp_coverages(c), True


def unusual(case):
    """Labels of the unusual features of a mechanism."""
    out = set()
    for r in case["rxns"]:
        st = ref.parse_rxn(r)
        for s in (st[0], st[-1]):
            if len({f["key"] for f in s}) < len(s):
                out.add("repeated species")
            for f in s:
                if f["stoich"] > 1:
                    out.add("coefficient above one")
                if f["kind"] == "liquid":
                    out.add("liquid")
                if f["kind"] == "ads" and f["nsite"] > 1:
                    out.add("multi-site adsorbate")
        if set(ref.side(st[0])) & set(ref.side(st[-1])):
            out.add("species on both sides")
    if len(set(case["rxns"])) < len(case["rxns"]):
        out.add("a reaction written twice")
    if any(0.0 in (v.get("pressure"), v.get("concentration")) for v in case["defs"].values()):
        out.add("species that are not fed")
    if len(ref.names(case["rxns"])["site"]) > 1:
        out.add("several sites")
    return out
