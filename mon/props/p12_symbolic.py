"""P12: the symbolic route agrees with the numerical one."""
from .. import ref, util
from ..common import build, energies, kinetics_case, reference, unusual

RULE = "(mechanism, coverages) on which the symbolic and the independent numerical values were compared"
MIN = {"models": 40, "rates": 100, "derivatives": 60, "entries": 60, "tofs": 30, "tex lines": 40,
       "zero coverages": 8, "more than ten reactions": 3, "other energies": 8}
KEY = "symbolic-unit-coefficient"
CASE_TIMEOUT = 120


def cases(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        plain = i % 2 == 0
        c = kinetics_case(rng, overlap=0.0 if plain else 0.2, repeat=0.0 if plain else 0.2,
                          n=rng.randint(11, 14) if i % 10 == 9 else rng.randint(1, 4),
                          prec=rng.choice([50, 100]), coverages=1)
        if rng.random() < 0.35:
            v = c["cvgs"][0]
            for k in rng.sample(range(len(v)), rng.randint(1, len(v))):
                v[k] = 0.0
        c["changed"] = rng.random() < 0.3
        if rng.random() < 0.2:      # hardly anything happens
            c["T"] = round(rng.uniform(120, 250), 2)
        yield c


def run(case, mon):
    m = build(case)
    for u in unusual(case):
        mon.count(u)
    mon.count("models")
    mon.count("more than ten reactions", len(case["rxns"]) > 10)
    mon.count("zero coverages", 0.0 in case["cvgs"][0])
    m.solver.get_data_symbols()
    values(case, m, mon)
    if case["changed"]:        # the same solver, other energies
        mon.count("other energies")
        util.with_relative(m, case["e2"])
        m.solver.get_data()
        values(case, m, mon)
    latex(case, m, mon)


def values(case, m, mon):
    s = m.solver
    e = energies(m)
    K, U = reference(case, e), reference(case, e, ref.UnitKinetics)
    c = tuple(case["cvgs"][0])
    tol = 1e-7
    mon.nontrivial([case["rxns"], c])
    kw = dict(rxns=case["rxns"])
    kf, kr = s.get_rate_constants_by_sym()
    for i in range(len(case["rxns"])):
        mon.close(ref.conv(kf[i]), K.kf[i], "symbolic forward rate constant", rtol=1e-10, **kw)
        mon.close(ref.conv(kr[i]), K.kr[i], "symbolic reverse rate constant", rtol=1e-10, **kw)
    rf, rr = K.rates(c)
    gf, gr = s.get_rates_by_sym(c)
    net = s.get_net_rates_by_sym(c)
    for i in range(len(case["rxns"])):
        mon.count("rates")
        mon.close(ref.conv(gf[i]), rf[i], "symbolic forward rate", rtol=tol, **kw)
        mon.close(ref.conv(gr[i]), rr[i], "symbolic reverse rate", rtol=tol, **kw)
        mon.close(ref.conv(net[i]), rf[i] - rr[i], "symbolic net rate", rtol=tol,
                  scale=abs(rf[i]) + abs(rr[i]), **kw)
    if K.names["gas"] or K.names["liquid"]:
        want, scale = K.tofs(c)
        got = s.get_tof_by_sym(c)
        for g, w, sc in zip(got, want, scale):
            mon.count("tofs")
            mon.close(ref.conv(g), w, "symbolic turnover frequency", rtol=tol, scale=sc, **kw)
    ks = s.get_equilibrium_constant_syms()
    sub = s.get_subs_dict(c)
    for i, k in enumerate(ks):
        mon.close(ref.conv(s._mpf(k.evalf(subs=sub))) if hasattr(s, "_mpf") else float(k.evalf(subs=sub)),
                  K.kf[i]/K.kr[i], "symbolic equilibrium constant", rtol=1e-9, **kw)

    def judge(got, want, unit, scale, kind):
        ok = abs(ref.conv(got) - want) <= tol*scale
        mon.count("assertions")
        if ok:
            return
        if U.special() and abs(ref.conv(got) - unit[0]) <= tol*unit[1]:
            mon.known_finding(KEY, got=str(got), want=str(want), **kw)
        else:
            mon.violation(kind, got=str(got), want=str(want), **kw)
    want, scale = K.dtheta(c)
    uval, uscale = U.dtheta(c)
    got = s.steady_state_function_by_sym(c)
    mon.equal(len(got), len(want), "number of symbolic derivatives", **kw)
    for i in range(len(want)):
        mon.count("derivatives")
        judge(got[i], want[i], (uval[i], uscale[i]), scale[i], "symbolic rate of coverage change")
    J, M = K.jacobian(c)
    UJ, UM = U.jacobian(c)
    got = s.analytical_jacobian_by_sym(c)
    for i in range(len(J)):
        for j in range(len(J)):
            mon.count("entries")
            judge(got[i, j], J[i][j], (UJ[i][j], UM[i][j]), M[i][j], "entry of the symbolic Jacobian")
    mon.show({"rxns": case["rxns"], "symbolic": [str(x) for x in s.steady_state_function_by_sym(c)]})


def latex(case, m, mon):
    """The expressions in the LaTeX log."""
    import sympy
    s = m.solver
    fs, rs = s.get_rate_syms(log_latex=True)
    ds = s.get_dtheta_dt_syms(log_latex=True)
    with open("formulas.tex") as f:
        text = f.read()
    for x in list(fs) + list(rs) + list(ds):
        mon.count("tex lines")
        mon.check(sympy.latex(x) in text, "an expression is missing in formulas.tex", expr=str(x))
