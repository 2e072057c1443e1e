"""P15: degrees of rate control."""
import copy
import logging

from .. import core, gen, ref, steady
from .p34_reports import Keep, indexed

RULE = ("a model whose degrees of rate control were compared with an independent 60-digit steady state "
        "perturbation; distinct (mechanism, energies, gas)")
MIN = {"degrees": 40, "sums": 12, "states kept": 12, "reported by a run": 4, "long mechanisms": 1}
CASE_TIMEOUT = 60
MAX_SKIP = 0.4
BUDGET = {"quick": 400}


def cases(rng, tier):
    for i in range(36 if tier == "quick" else 300):
        if i % 18 == 5:
            rx = steady.chain(rng, rng.randint(12, 14))
            c = steady.energy_case(rng, rx, gen.definitions(rng, rx), 100)
        else:
            c = steady.case(rng, random_mechs=0.15, prec=100)
        nm = ref.names(c["rxns"])
        if not nm["gas"]:
            continue
        c["gas"] = rng.choice(nm["gas"])
        c["eps"] = rng.choice([1e-9, 1e-7, 1e-5, 1e-4])
        c["override"] = rng.random() < 0.4
        c["below"] = [rng.randrange(10), round(rng.uniform(0.01, 0.1), 3)] if rng.random() < 0.5 else None
        c["via_run"] = rng.random() < 0.3
        c["root"] = rng.choice(["MDNewton", "MDNewton", "MDNewton", "ConstrainedNewton"])
        yield c


def observed(m, call):
    """What the call logs."""
    logger, keep = logging.getLogger("model"), Keep()
    logger.handlers = [keep]
    logger.setLevel(logging.INFO)
    try:
        call()
    finally:
        logger.handlers = []
    return keep


def run(case, mon):
    c = case
    m = steady.build(c, tolerance=1e-25, max_rootfinding_iterations=80, rootfinding=c["root"],
                     archived_variables=["steady_state_coverages", "steady_state_error", "tofs", "rates"])
    s = m.solver
    own = steady.relative(c["rxns"], c["abs"])
    given = steady.relative(c["rxns"], c["abs2"]) if c["override"] else None
    if given and c["below"] is not None:      # a reaction without a barrier, below its end
        i, x = c["below"][0] % len(c["rxns"]), c["below"][1]
        more = x + min(given["Gaf"][i], given["Gar"][i])
        for k in ("Gaf", "Gar"):
            given[k][i] -= more
    e = given or own
    before = copy.deepcopy(dict(m.relative_energies))
    given_before = copy.deepcopy(given)
    keep = None
    try:
        if c["via_run"]:
            keep = observed(m, lambda: m.run(init_cvgs=list(c["c0"]), coarse_guess=False, relative_energies=given, XRC=True,
                                             product_name=c["gas"], epsilon=c["eps"]))
            x = m.steady_state_coverages
        else:
            x = s.get_steady_state_cvgs(c0=tuple(c["c0"]), relative_energies=given)
    except (steady.GiveUp, ValueError, ZeroDivisionError) as err:
        raise core.Skip("not converged")
    gases = ref.names(c["rxns"])["gas"]
    gi = gases.index(c["gas"])

    def rate(en):
        K = steady.kinetics(c, en)
        y = steady.newton(K, x)
        return K.tofs(y)[0][gi], K, y
    r0, K0, y0 = rate(e)
    size = K0.tofs(y0)[1][gi]
    if abs(r0) < ref.mpf(10)**-9*size:
        raise core.Skip("no turnover of the gas")
    want = []
    eps = ref.mpf(c["eps"])
    for i in range(len(c["rxns"])):
        en = {k: list(v) for k, v in e.items()}
        en["Gaf"][i] = float(en["Gaf"][i]) + c["eps"]
        en["Gar"][i] = float(en["Gar"][i]) + c["eps"]
        r1, K1, _y = rate(en)
        k0, k1 = K0.kf[i], K1.kf[i]
        want.append(k0/r0*(r1 - r0)/(k1 - k0))
    cov, err = (m.steady_state_coverages, m.error) if c["via_run"] else (s.coverages, s.error)
    with open(m.data_file, "rb") as f:
        stored = f.read()
    import pickle
    if c["via_run"]:        # a run reports them in its log
        mon.count("reported by a run")
        rows = indexed(keep.rows, "Degree of Rate Control for " + c["gas"] + ":")
        mon.check(rows is not None, "a run did not report the degrees of rate control", rxns=c["rxns"], gas=c["gas"])
        got = [r[2] for r in rows or ()]
    else:
        try:
            got = s.get_single_XRC(c["gas"], epsilon=c["eps"], relative_energies=given)
        except (steady.GiveUp, ValueError) as e_:
            raise core.Skip("not converged")
    mon.nontrivial([c["rxns"], c["abs"], c["gas"], c["override"]])
    kw = dict(rxns=c["rxns"], gas=c["gas"], override=c["override"])
    mon.equal(len(got), len(want), "number of degrees of rate control", **kw)
    big = max(1, max(abs(w) for w in want))
    for i, (g, w) in enumerate(zip(got, want)):
        mon.count("degrees")
        mon.close(ref.conv(g), w, "degree of rate control", rtol=1e-5, scale=big, rxn=c["rxns"][i], **kw)
    mon.count("long mechanisms", len(c["rxns"]) > 11)
    mon.count("sums")
    mon.close(sum(ref.conv(g) for g in got), 1, "the degrees of rate control do not sum to one",
              rtol=len(got)*big*0.05*(c["eps"]/1e-4) + 0.02*big, **kw)
    # the converged state is kept
    mon.count("states kept")
    mon.equal([str(v) for v in s.coverages], [str(v) for v in cov], "coverages changed by the analysis", **kw)
    mon.equal(str(s.error), str(err), "error changed by the analysis", **kw)
    mon.equal(dict(m.relative_energies), before, "energies changed by the analysis", **kw)
    mon.equal(given, given_before, "given energies changed by the analysis", **kw)
    with open(m.data_file, "rb") as f:
        now = pickle.load(f)
    old = pickle.loads(stored)
    mon.equal([str(v) for v in now["steady_state_coverages"]], [str(v) for v in old["steady_state_coverages"]],
              "archived coverages changed by the analysis", **kw)
    mon.show({"rxns": c["rxns"], "gas": c["gas"], "XRC": [float(v) for v in got]})
