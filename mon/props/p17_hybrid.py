"""P17: Boltzmann coverages and the hybrid-guess protocol."""
import os

from .. import core, gen, ref, steady, util
from .p16_transient import integrate, relative, start_coverages

RULE = ("a model whose Boltzmann coverages were recomputed, or one observed search: the sequence of hybrid calls, "
        "the guesses tried and the outcome; distinct (mechanism, energies, scenario)")
MIN = {"boltzmann vectors": 60, "no absolute energies": 5, "searches": 60, "hybrid calls": 120, "after a singular Jacobian": 10,
       "unphysical guesses": 10, "no hybrid method": 8, "default method": 10, "from earlier coverages": 3, "hybrid errors": 4,
       "guesses tried": 60, "from run()": 15}
CASE_TIMEOUT = 60
MAX_SKIP = 0.3
BUDGET = {"quick": 400}


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(50*k):
        rx, d = gen.mechanism(rng, n=rng.randint(1, 6), **gen.random_pool_args(rng))
        if not ref.names(rx)["ads"]:
            continue
        nm = ref.names(rx)
        e = {s: round(rng.uniform(-2, 2), 4) for q in ("ads", "gas", "liquid", "ts") for s in nm[q]}
        e.update({s: rng.choice([0.0, 0.0, round(rng.uniform(-0.3, 0.3), 3)]) for s in nm["site"]})
        if rng.random() < 0.3:      # species of the same energy
            some = rng.sample(nm["ads"], rng.randint(1, len(nm["ads"])))
            e.update({s: e[some[0]] for s in some})
        yield {"kind": "boltzmann", "rxns": rx, "defs": d, "T": round(rng.uniform(250, 1200), 1),
               "abs": e, "prec": rng.choice([30, 50, 100]), "relative": rng.random() < 0.2}
    for i in range(85*k):
        c = steady.case(rng, random_mechs=0.2)
        c["kind"] = "protocol"
        c["fail"] = rng.randint(0, 5)
        c["how"] = rng.choice(["iterations", "iterations", "singular", "mixed"])
        c["start"] = rng.choice(["none", "none", "given", "run", "run"])
        c["none"] = rng.random() < 0.15
        c["raise"] = rng.random() < 0.15
        c["root"] = rng.choice(["MDNewton", "ConstrainedNewton"])
        c["guesses"] = []
        for _ in range(8):
            g = gen.coverages(rng, c["rxns"], c["defs"])
            if rng.random() < 0.3:
                g[rng.randrange(len(g))] = rng.choice([-0.2, -1e-9, 1.7])
            c["guesses"].append([float(v) for v in g])
        yield c
    for i in range(24*k):
        rx, d = gen.mechanism(rng, n=rng.randint(1, 3), **gen.random_pool_args(rng))
        if not ref.names(rx)["ads"]:
            continue
        for v in d.values():
            if "pressure" in v:
                v["pressure"] = round(rng.uniform(0.05, 3.0), 3)
        T = round(rng.uniform(300, 900), 1)
        yield {"kind": "default", "rxns": rx, "defs": d, "T": T, "e": relative(rng, len(rx), T),
               "N": rng.randint(0, 5), "e2": relative(rng, len(rx), T) if i % 2 else None,
               "c0": gen.coverages(rng, rx, d)}


def boltzmann(c, mon):
    nm = ref.names(c["rxns"])
    if c["relative"]:
        m = util.mkm(c["rxns"], c["defs"], temperature=c["T"], decimal_precision=c["prec"])
        n = len(c["rxns"])
        util.with_relative(m, {"Gaf": [1.0]*n, "dG": [0.1]*n})
        mon.raises(m.solver.boltzmann_coverages, IOError, "Boltzmann coverages without absolute energies",
                   rxns=c["rxns"])
        mon.count("no absolute energies")
        mon.nontrivial(["rel", c["rxns"]])
        return
    m = util.mkm(c["rxns"], c["defs"], temperature=c["T"], decimal_precision=c["prec"],
                 parser="AbsoluteEnergyParser")
    util.with_absolute(m, c["abs"])
    m.solver.get_data()
    kT = ref.mpf(ref.KB_EV)*ref.mpf(c["T"])
    w = {k: ref.ctx.exp(-ref.mpf(c["abs"][k])/kT) for k in nm["ads"] + nm["site"]}
    for empty in (True, False):
        tot = sum(w[k] for k in (nm["ads"] + nm["site"] if empty else nm["ads"]))
        got = m.solver.boltzmann_coverages() if empty else m.solver.boltzmann_coverages(include_empty_site=False)
        mon.count("boltzmann vectors")
        mon.equal(len(got), len(nm["ads"]), "number of Boltzmann coverages", rxns=c["rxns"])
        for a, g in zip(nm["ads"], got):
            mon.close(ref.conv(g), w[a]/tot, "Boltzmann coverage", rtol=1e-9, adsorbate=a, empty=empty,
                      rxns=c["rxns"], T=c["T"])
    mon.nontrivial([c["rxns"], c["abs"], c["T"]])


class HybridError(Exception):
    pass


def physical_guess(c, g):
    """The documented constraint: into [0, min(1, total)], then scaled into each site's total."""
    nm = ref.names(c["rxns"])
    out = {}
    for a, v in zip(nm["ads"], g):
        s = "*_" + ref.parse_formula(a)["site"]
        out[a] = min(max(v, 0.0), 1.0, c["defs"][s]["total"])
    for s in nm["site"]:
        mine = [a for a in nm["ads"] if "*_" + ref.parse_formula(a)["site"] == s]
        t = sum(ref.parse_formula(a)["nsite"]*out[a] for a in mine)
        if t > c["defs"][s]["total"]:
            for a in mine:
                out[a] *= c["defs"][s]["total"]/t
    return [out[a] for a in nm["ads"]]


def protocol(c, mon):
    K = steady.kinetics(c)
    # the reference root, found from an integration-free relaxation of our own
    root = None
    for g in [c["c0"]] + c["guesses"]:
        try:
            x = steady.newton(K, physical_guess(c, g), steps=80)
        except core.Skip:
            continue
        act = K.activities(x)
        if all(v >= 0 for v in act.values()):
            root = x
            break
    if root is None:
        raise core.Skip("no physical reference root")
    kw = dict(rxns=c["rxns"], fail=c["fail"], how=c["how"])
    m = steady.build(c, rootfinding=c["root"], tolerance=1e-12, max_rootfinding_iterations=0)
    s = m.solver
    log = []

    def hybrid(model, N):
        log.append(("hybrid", N, model))
        if c["raise"] and N == c["fail"] and N > 0:
            raise HybridError("no idea")
        if N >= c["fail"]:
            import mpmath
            return [mpmath.mpf(ref.ctx.nstr(v, 60)) for v in root]
        return list(c["guesses"][N % len(c["guesses"])])
    m.hybrid_method_register(hybrid)
    real = s.steady_state_function

    def watched(cvgs, *a, **k):
        log.append(("try", [float(v) for v in cvgs], None))
        return real(cvgs, *a, **k)
    s.steady_state_function = watched
    if c["how"] != "iterations":
        jac, count = s.analytical_jacobian, [0]

        def singular(*a, **k):
            count[0] += 1
            if c["how"] == "singular" or count[0] % 2:
                mon.count("after a singular Jacobian")
                raise ZeroDivisionError("singular")
            return jac(*a, **k)
        s.analytical_jacobian = singular
    first = None
    if c["start"] == "given":
        first = list(c["guesses"][-1])
    if c["none"]:
        m.hybrid_method = None
        x = s.get_steady_state_cvgs(c0=tuple(c["guesses"][-1]))
        mon.count("searches")
        mon.count("no hybrid method")
        mon.equal(x, None, "a search that never converged reported coverages", **kw)
        mon.check(not os.path.exists(m.data_file), "a failed search was archived", **kw)
        mon.nontrivial([c["rxns"], c["abs"], "none"])
        mon.equal([r for r in log if r[0] == "hybrid"], [], "hybrid calls without a hybrid method", **kw)
        return
    raising = c["raise"] and c["fail"] > 0
    try:
        if c["start"] == "run":
            mon.count("from run()")
            m.run(coarse_guess=False)
            x = m.steady_state_coverages
        else:
            x = s.get_steady_state_cvgs(c0=None if first is None else tuple(first))
        mon.check(not raising, "an error of the hybrid method was lost", **kw)
    except HybridError:
        mon.count("hybrid errors")
        mon.check(raising, "unexpected hybrid error", **kw)
        x = None
    mon.count("searches")
    mon.nontrivial([c["rxns"], c["abs"], c["fail"], c["how"], c["start"]])
    calls = [(i, r[1]) for i, r in enumerate(log) if r[0] == "hybrid"]
    mon.count("hybrid calls", len(calls))
    mon.check(all(r[2] is m for r in log if r[0] == "hybrid"), "the hybrid method got another model", **kw)
    lo = 1 if first is not None else 0
    want = list(range(lo, max(c["fail"], lo) + 1))
    mon.equal([n for _, n in calls], want, "sequence of hybrid calls", start=c["start"], **kw)
    # each answer is the next guess: it is tried before the next call
    for k, (i, n) in enumerate(calls):
        end = calls[k + 1][0] if k + 1 < len(calls) else len(log)
        tried = [r[1] for r in log[i:end] if r[0] == "try"]
        if raising and n == c["fail"]:
            mon.equal(tried, [], "coverages were tried after the hybrid method failed", **kw)
            continue
        guess = [float(v) for v in root] if n >= c["fail"] else c["guesses"][n % len(c["guesses"])]
        phys = physical_guess(c, guess)
        if max(abs(a - b) for a, b in zip(phys, guess)) > 1e-12:
            mon.count("unphysical guesses")
        mon.count("guesses tried")
        mon.check(any(max(abs(a - b) for a, b in zip(t, phys)) < 1e-9 for t in tried),
                  "the answer of the hybrid method was not tried", N=n, guess=phys, tried=tried[:2], **kw)
    if x is not None:
        mon.close(max(abs(ref.conv(a) - b) for a, b in zip(x, root)), 0, "coverages after the search",
                  rtol=0, atol=1e-12, **kw)
    for wrong in (None, 3, s):
        mon.raises(lambda: m.hybrid_method(wrong, 0), TypeError, "the hybrid method accepted no model", **kw)
    mon.show({"rxns": c["rxns"], "hybrid calls": [n for _, n in calls], "tries": len(log) - len(calls)})


def default(c, mon):
    """The default method integrates for ten seconds from the present coverages."""
    m = util.mkm(c["rxns"], c["defs"], temperature=c["T"], decimal_precision=20)
    util.with_relative(m, c["e"])
    m.solver.get_data()
    nads = len(m.adsorbate_names)
    present = [0.0]*nads
    if c["e2"]:     # coverages of an earlier search, at other energies
        steady.bounded(m, 2)
        try:
            x = [float(v) for v in m.solver.get_steady_state_cvgs(c0=tuple(c["c0"]), relative_energies=c["e2"])]
            mon.equal([float(v) for v in m.solver.coverages], x, "coverages after a search", rxns=c["rxns"])
            present = x
            mon.count("from earlier coverages")
        except (steady.GiveUp, ValueError):
            raise core.Skip("not converged")
        from scaks.plugins.hybrid_methods import ODE_integration
        m.hybrid_method_register(ODE_integration)
    want = integrate(c, c["e"], present, [0.0, 5.0, 10.0, 10.01])
    got = m.hybrid_method(m, c["N"])
    mon.count("default method")
    mon.nontrivial([c["rxns"], c["e"], "default"])
    mon.equal(len(got), nads, "length of the default guess", rxns=c["rxns"])
    for a, g, w1, w2 in zip(m.adsorbate_names, got, want[2], want[3]):
        lo, hi = min(w1, w2) - 1e-4, max(w1, w2) + 1e-4
        mon.check(lo <= g <= hi, "guess of the default hybrid method", adsorbate=a, got=g, want=[w1, w2],
                  rxns=c["rxns"])


def run(case, mon):
    {"boltzmann": boltzmann, "protocol": protocol, "default": default}[case["kind"]](case, mon)
