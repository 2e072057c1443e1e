"""P16: the transient integration follows the coverage equations."""
import math
import os

from .. import core, gen, ref, util
from ..common import unusual

RULE = ("an integration whose every recorded time and coverage vector was compared with an independent "
        "integration of independently built coverage equations; distinct (mechanism, energies, integrator, span)")
MIN = {"integrations": 60, "recorded rows": 400, "lsoda": 15, "vode": 10, "given energies": 12,
       "interrupted": 3, "default start": 6, "clean start with absolute energies": 4, "late start": 8, "microseconds": 15, "output intervals above one": 12}
CASE_TIMEOUT = 40
MAX_SKIP = 0.3
BUDGET = {"quick": 300}
KB = float(ref.KB_EV)
ASSUMPTIONS = ["rate constants between 1e-3 and 20 per second (or per 0.1 ms or 0.1 us with spans to match), so that every offered integrator is applicable"]


def relative(rng, n, T, unit=1.0):
    """Barriers giving rate constants between 1e-3 and 20 per unit of time."""
    kT = KB*T
    top = kT*math.log(kT/float(ref.H_EV))
    e = {"Gaf": [], "Gar": [], "dG": []}
    for _ in range(n):
        kf, kr = [10**rng.uniform(-3, 1.3)/unit for _ in "fr"]
        if rng.random() < 0.15:
            kr = kf*10**rng.uniform(-6, -2)
        gf, gr = round(top - kT*math.log(kf), 6), top - kT*math.log(kr)
        dg = round(gf - gr, 6)
        e["Gaf"].append(gf)
        e["dG"].append(dg)
        e["Gar"].append(gf - dg)
    return e


def start_coverages(rng, rx, d):
    """Physical starting coverages."""
    nm = ref.names(rx)
    out = {}
    for s in nm["site"]:
        mine = [a for a in nm["ads"] if "*_" + ref.parse_formula(a)["site"] == s]
        w = [rng.random()*(rng.random() < 0.8) for _ in mine]
        t = sum(w) + rng.random() + 1e-3
        for a, v in zip(mine, w):
            out[a] = round(v/t*d[s]["total"]/ref.parse_formula(a)["nsite"]*0.999, 5)
    return [out[a] for a in nm["ads"]]


def cases(rng, tier):
    n = 100 if tier == "quick" else 900
    i = 0
    while i < n:
        rx, d = gen.mechanism(rng, overlap=0.1, repeat=0.15, n=rng.randint(1, 5), **gen.random_pool_args(rng))
        if not ref.names(rx)["ads"]:
            continue
        for v in d.values():       # moderate pressures
            if "pressure" in v:
                v["pressure"] = round(rng.uniform(0.05, 3.0), 3)
        T = round(rng.uniform(300, 900), 1)
        span = rng.choice([0.05, 0.1, 0.25, 0.013, 1.0])
        t0 = rng.choice([0.0, 0.0, 0.0, 2.0, -0.5])
        unit = rng.choice([1.0, 1.0, 1.0, 1e-4, 1e-7])
        if unit < 1:
            span, t0 = span*unit, 0.0
        k = rng.randint(3, 25)
        own = rng.random() < 0.25    # a model that could also start from Boltzmann coverages
        clean = rng.random() < (0.6 if own else 0.15)
        yield {"own": gen.absolute_energies(rng, rx) if own else None, "clean": clean,
               "rxns": rx, "defs": d, "T": T, "unit": unit,
               "e": relative(rng, len(rx), T, unit), "e2": relative(rng, len(rx), T, unit),
               "override": rng.random() < 0.3 or own, "default": rng.random() < 0.15,
               "c0": [0.0]*len(ref.names(rx)["ads"]) if clean else start_coverages(rng, rx, d),
               "algo": rng.choice(["lsoda", "lsoda", "lsoda", "vode", "vode", "dopri5", "dop853"]),
               "span": span, "t0": t0, "t1": unit*round((t0 + span*k*rng.choice([1.0, 1.0, 0.97]))/unit, 6),
               "traj": rng.random() < 0.8, "every": rng.choice([1, 1, 2, 3, 7]),
               "kill": rng.random() < 0.22, "calls": rng.randint(5, 60), "as": rng.choice(["list", "tuple"])}
        i += 1


class Killed(Exception):
    pass


def integrate(c, e, y0, times):
    """The coverages at the given times."""
    import numpy as np
    from scipy.integrate import solve_ivp
    K = ref.Kinetics(c["rxns"], c["defs"], c["T"], e["Gaf"], e["Gar"])
    nm = K.names
    kf, kr = [float(x) for x in K.kf], [float(x) for x in K.kr]
    fixed = {g: float(c["defs"][g]["pressure"]) for g in nm["gas"]}
    fixed.update({q: float(c["defs"][q]["concentration"]) for q in nm["liquid"]})
    site = {a: ("*_" + ref.parse_formula(a)["site"], ref.parse_formula(a)["nsite"]) for a in nm["ads"]}
    net = [[K.net_stoich(i, a) for i in range(len(kf))] for a in nm["ads"]]

    def rhs(t, y):
        act = dict(fixed)
        for s in nm["site"]:
            act[s] = float(c["defs"][s]["total"])
        for a, v in zip(nm["ads"], y):
            act[a] = v
            act[site[a][0]] -= site[a][1]*v
        r = []
        for i in range(len(kf)):
            f, b = kf[i], kr[i]
            for sp, n in K.left[i].items():
                f *= act[sp]**n
            for sp, n in K.right[i].items():
                b *= act[sp]**n
            r.append(f - b)
        return [sum(n*q for n, q in zip(row, r)) for row in net]
    sol = solve_ivp(rhs, (times[0], times[-1]), y0, method="LSODA", t_eval=times, rtol=1e-10, atol=1e-13)
    if not sol.success or not np.all(np.isfinite(sol.y)) or np.max(np.abs(sol.y)) > 3:
        raise core.Skip("the reference solution blows up")
    # sensitivity to the start: an unstable trajectory cannot be compared
    pert = solve_ivp(rhs, (times[0], times[-1]), [v + 1e-6 for v in y0], method="LSODA", t_eval=times,
                     rtol=1e-10, atol=1e-13)
    if not pert.success or np.max(np.abs(pert.y - sol.y)) > 2e-5:
        raise core.Skip("an unstable trajectory")
    return [list(map(float, col)) for col in sol.y.T]


def run(case, mon):
    c = case
    nm = ref.names(c["rxns"])
    m = util.mkm(c["rxns"], c["defs"], temperature=c["T"], decimal_precision=30,
                 ode_output_interval=c["every"], **({"parser": "AbsoluteEnergyParser"} if c["own"] else {}))
    if c["own"]:
        util.with_absolute(m, c["own"])
    else:
        util.with_relative(m, c["e"])
    s = m.solver
    s.get_data()
    given = c["e2"] if c["override"] else None
    start = None if c["default"] else (list if c["as"] == "list" else tuple)(c["c0"])
    y0 = c["c0"]
    if c["default"]:    # P17 judges the Boltzmann coverages
        y0 = [float(v) for v in s.boltzmann_coverages()] if c["own"] else [0.0]*len(nm["ads"])
    kw = dict(rxns=c["rxns"], algo=c["algo"], span=c["span"])
    grid = [c["t0"]]
    while grid[-1] < c["t1"]:
        grid.append(grid[-1] + c["span"])
    want = integrate(c, given or c["e"], y0, grid)
    if max(abs(v) for row in want for v in row) > 1.5:
        raise core.Skip("the reference solution blows up")

    kill = c["kill"] and c["traj"]
    if kill:
        real, left = s.steady_state_function, [c["calls"]]

        def dying(*a, **k):
            left[0] -= 1
            if left[0] < 0:
                raise Killed()
            return real(*a, **k)
        s.steady_state_function = dying
    died = False
    try:
        t, y = s.solve_ode(algo=c["algo"], time_start=c["t0"], time_end=c["t1"], time_span=c["span"],
                           initial_cvgs=start, relative_energies=given, traj_output=c["traj"])
    except (Killed, ValueError) as e:      # scipy turns it into a ValueError for some integrators
        if not kill:
            raise
        died = True
        mon.count("interrupted")
    mon.nontrivial([c["rxns"], c["e"], c["algo"], c["span"], c["t1"], c["override"]])
    mon.count("integrations")
    mon.count(c["algo"])
    for flag, name in [(given, "given energies"), (c["default"], "default start"),
                       (c["own"] and c["default"], "Boltzmann start"),
                       (c["own"] and c["clean"] and not c["default"], "clean start with absolute energies"), (c["t0"], "late start"), (c["unit"] < 1, "microseconds"),
                       (c["every"] > 1, "output intervals above one")]:
        if flag:
            mon.count(name)
    for u in unusual(c):
        mon.count(u)
    # vode and dop853 with scipy's own tolerances are looser than lsoda
    tol = dict(rtol=0, atol=5e-5 if c["algo"] in ("lsoda", "dopri5") else 1e-3 if c["algo"] == "dop853" else 5e-4)
    if not died:
        mon.close(float(t), grid[-1], "time reached by the integration", rtol=0, atol=1e-9*c["unit"], **kw)
        mon.equal(len(y), len(nm["ads"]), "number of coverages", **kw)
        for a, got, w in zip(nm["ads"], y, want[-1]):
            mon.close(float(got), w, "coverage at the end of the integration", adsorbate=a, **tol, **kw)
    if c["traj"]:
        mon.check(os.path.exists("auto_ode_coverages.py"), "no trajectory was written", **kw)
        ns = {}
        with open("auto_ode_coverages.py") as f:
            exec(f.read(), ns)
        ts, ys = ns["times"], ns["coverages"]
        idx = list(range(c["every"], len(grid), c["every"]))
        if died:
            mon.check(len(ts) <= len(idx), "rows after the interruption", got=len(ts), **kw)
            idx = idx[:len(ts)]
        mon.equal(len(ts), len(idx), "number of recorded times", every=c["every"], **kw)
        mon.equal(len(ys), len(ts), "number of recorded coverages", every=c["every"], **kw)
        for i, got_t, got_y in zip(idx, ts, ys):
            mon.count("recorded rows")
            mon.close(got_t, grid[i], "recorded time", rtol=0, atol=1e-9*c["unit"], **kw)
            mon.equal(len(got_y), len(nm["ads"]), "recorded number of coverages", **kw)
            for a, got, w in zip(nm["ads"], got_y, want[i]):
                mon.close(got, w, "recorded coverage", adsorbate=a, time=got_t, **tol, **kw)
    else:
        mon.check(not os.path.exists("auto_ode_coverages.py"), "a trajectory was written unasked", **kw)
    mon.show({"rxns": c["rxns"], "algo": c["algo"], "end": None if died else [float(v) for v in y]})
