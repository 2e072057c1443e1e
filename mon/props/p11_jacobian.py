"""P11: the analytical Jacobian is the derivative of the coverage equations."""
from .. import ref
from ..common import build, energies, kinetics_case, reference, unusual, vectors

RULE = "(mechanism, coverages) whose Jacobian entries were compared with exact derivatives"
MIN = {"entries": 800, "numerical entries": 200, "repeated species": 10, "multi-site adsorbate": 8,
       "species on both sides": 8, "coefficient above one": 20, "powers of ten or more": 3}


def cases(rng, tier):
    for i in range(80 if tier == "quick" else 900):
        c = kinetics_case(rng, n=rng.randint(14, 24) if i % 11 == 10 else None)
        if i % 9 == 4:
            large(c, rng)
        yield c


def large(c, rng):
    """Write one reaction of the mechanism many times over."""
    i = rng.randrange(len(c["rxns"]))
    st = ref.parse_rxn(c["rxns"][i])
    k = rng.randint(4, 12)
    c["rxns"][i] = " -> ".join(" + ".join("{}{}".format(f["stoich"]*k, f["key"]) for f in s)
                               for s in (st[0], st[-1]))


def run(case, mon):
    m = build(case)
    s = m.solver
    own = energies(m)
    for u in unusual(case):
        mon.count(u)
    if any(n > 9 for r in case["rxns"] for s in ref.parse_rxn(r) for n in ref.side(s).values()):
        mon.count("powers of ten or more")
    for given in (None, case["e2"]):
        e = own if given is None else given
        K = reference(case, e)
        for c, exact in vectors(case):
            tol = 1e-10 if exact else 1e-6
            J, M = K.jacobian(c)
            got = s.analytical_jacobian(c, relative_energies=given)
            n = len(J)
            kw = dict(rxns=case["rxns"], coverages=str([float(x) for x in c]))
            mon.nontrivial([case["rxns"], str(c), given is None])
            mon.equal((got.rows, got.cols), (n, n), "shape of the Jacobian", **kw)
            for i in range(n):
                for j in range(n):
                    mon.count("entries")
                    mon.close(ref.conv(got[i, j]), J[i][j], "entry of the Jacobian", rtol=tol,
                              scale=M[i][j], row=K.names["ads"][i], column=K.names["ads"][j], **kw)
            if exact and given is None and case["prec"] >= 50:
                num = s.classified_numerical_jacobian(s.steady_state_function, c)
                for i in range(n):
                    big = max(M[i]) + sum(M[i])
                    for j in range(n):
                        mon.count("numerical entries")
                        # forward difference: the error is h/2 times the second derivative
                        second = max(abs(K.jacobian([x + (ref.mpf(10)**-3 if k == j else 0)
                                                     for k, x in enumerate(map(ref.conv, c))])[0][i][j]
                                         - J[i][j])*1000, big)
                        mon.close(ref.conv(num[i, j]), J[i][j], "entry of the numerical Jacobian",
                                  atol=1e-8*second*100, **kw)
            mon.show({"rxns": case["rxns"], "row": [str(float(got[0, j])) for j in range(n)]})
    from scaks.errors.error import ParameterError
    short = tuple(case["cvgs"][0]) + (0.0,)
    mon.raises(lambda: s.analytical_jacobian(short), (ParameterError,),
               "a Jacobian for the wrong number of coverages")
