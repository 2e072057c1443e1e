"""Mechanisms with a well-defined steady state, and an independent solver for it."""
import itertools
import random

from . import core, gen, ref, util
from .props.p04_total import cycle, rank


class GiveUp(Exception):
    pass


def solvable(rxns):
    """The coverages are determined: no conserved combination of adsorbates."""
    nm = ref.names(rxns)
    rows = []
    for r in rxns:
        st = ref.parse_rxn(r)
        le, ri = ref.side(st[0]), ref.side(st[-1])
        rows.append([ri.get(a, 0) - le.get(a, 0) for a in nm["ads"]])
    return rank(rows) == len(nm["ads"])


def template(rng):
    """Mechanisms of the kind users study."""
    k = rng.randrange(9)
    s = rng.choice(["s", "t", "b"])
    if k == 0:
        rx = ["CO_g + *_s -> CO_s", "O2_g + 2*_s <-> O-O_2s -> 2O_s",
              "CO_s + O_s <-> CO-O_2s -> CO2_g + 2*_s"]
    elif k == 1:
        rx = ["HCOOH_g + *_s -> HCOOH_s", "HCOOH_s + *_s <-> H-COOH_2s -> COOH_s + H_s",
              "COOH_s <-> COO-H_s -> CO2_g + H_s", "2H_s <-> H-H_2s -> H2_g + 2*_s"]
    elif k == 2:
        rx = ["CO_g + *_s -> CO_s", "CO_s + *_t -> CO_t + *_s", "CO_t -> CO_g + *_t"]
    elif k == 3:
        rx = ["O2_g + 2*_s -> O2_2s", "O2_2s <-> O-O_2s -> 2O_s", "2O_s + S_g -> SO2_g + 2*_s"]
    elif k == 4:
        rx = ["CO_g + *_s -> CO_s", "O2_g + *_s + *_s <-> O-O_2s -> O_s + O_s",
              "O_s + CO_s <-> O-CO_2s -> CO2_s + *_s", "CO2_s -> CO2_g + *_s"]
    elif k == 5:
        rx = ["H2O_l + *_s -> H2O_s", "H2O_s + *_s <-> OH-H_2s -> OH_s + H_s",
              "2H_s -> H2_g + 2*_s", "2OH_s -> H2O2_g + 2*_s"]
    elif k == 6:
        rx = ["N2_g + 2*_s <-> N-N_2s -> 2N_s", "H2_g + 2*_t <-> H-H_2t -> 2H_t",
              "N_s + H_t -> NH_s + *_t", "NH_s + 2H_t <-> NH-H2_s + 2*_t -> NH3_g + *_s + 2*_t"]
    elif k == 7:
        rx = ["O_g + *_s -> O_s", "O_s + C_g <-> O-C_s -> CO_s", "CO_s -> CO_g + *_s"]
    else:
        rx = ["Cl2_g + 2*_s -> 2Cl_s", "Na_g + *_s -> Na_s", "Na_s + Cl_s <-> Na-Cl_2s -> NaCl_g + 2*_s",
              "Na_s + *_s + Cl_g -> NaCl_2s", "NaCl_2s -> NaCl_g + 2*_s"]
    rx = [r.replace("_s", "_" + s).replace("2s", "2" + s) if s != "t" else r for r in rx]
    if rng.random() < 0.3:
        rng.shuffle(rx)
    return rx


def case(rng, random_mechs=0.35, prec=None, tmin=400, tmax=800):
    """A mechanism with absolute energies."""
    while True:
        u = rng.random()
        if u < 1 - random_mechs:
            rx = template(rng)
        elif u < 1 - random_mechs/2:
            rx = cycle(rng)
        else:
            rx, _ = gen.mechanism(rng, n=rng.randint(2, 5), ts=0.5, size=3,
                                  **gen.random_pool_args(rng))
        if not all(ref.balanced(r) for r in rx):
            raise RuntimeError(rx)
        if solvable(rx) and len(set(rx)) == len(rx):
            break
    d = gen.definitions(rng, rx)
    c = energy_case(rng, rx, d, prec, tmin, tmax)
    return c


def chain(rng, n):
    """A gas that adsorbs, rearranges n - 1 times and desorbs: as many reactions as there are isomers, and one."""
    names = ["".join(p) for p in itertools.permutations("CHNO")]
    rng.shuffle(names)
    site = rng.choice(["s", "top"])
    ads = [x + "_" + site for x in names[:n]]
    rx = ["{}_g + *_{} -> {}".format(names[n], site, ads[0])]
    rx += ["{} -> {}".format(a, b) for a, b in zip(ads, ads[1:])]
    return rx + ["{} -> {}_g + *_{}".format(ads[-1], names[n + 1], site)]


def energy_case(rng, rx, d, prec=None, tmin=400, tmax=800):
    return {"rxns": rx, "defs": d, "T": round(rng.uniform(tmin, tmax), 1),
            "prec": prec or rng.choice([50, 100]),
            "abs": moderate(rng, rx), "abs2": moderate(rng, rx),
            "c0": gen.coverages(rng, rx, d)}


def moderate(rng, rx):
    """Absolute energies giving moderate equilibrium constants and barriers."""
    nm = ref.names(rx)
    elems = sorted({e for k in nm["ads"] + nm["gas"] + nm["liquid"] + nm["ts"]
                    for e in ref.parse_formula(k)["elements"]})
    mu = {e: round(rng.uniform(-0.5, 0.5), 3) for e in elems}
    out = {}
    for k in nm["gas"] + nm["liquid"] + nm["ads"]:
        out[k] = round(sum(mu[e]*n for e, n in ref.parse_formula(k)["elements"].items())
                       + rng.uniform(-0.25, 0.25), 4)
    for k in nm["site"]:
        out[k] = 0.0
    for k in nm["ts"]:
        out[k] = -1e9
    for r in rx:
        st = ref.parse_rxn(r)
        if len(st) == 3:
            ends = max(ref.state_energy(st[0], out), ref.state_energy(st[-1], out))
            ts = [f for f in st[1] if f["kind"] == "ts"]
            rest = sum(f["stoich"]*out[f["key"]] for f in st[1] if f["kind"] != "ts")
            for f in ts:
                want = round((ends - rest + rng.uniform(0.05, 0.5))/len(ts)/f["stoich"], 4)
                out[f["key"]] = max(out[f["key"]], want)
    return out


def relative(rx, absolute):
    e = {"Gaf": [], "Gar": [], "dG": []}
    for r in rx:
        st = ref.parse_rxn(r)
        a, b = ref.state_energy(st[0], absolute), ref.state_energy(st[-1], absolute)
        t = ref.state_energy(st[1], absolute) if len(st) == 3 else max(a, b)
        e["Gaf"].append(t - a)
        e["Gar"].append(t - b)
        e["dG"].append(b - a)
    return e


def build(c, attempts=4, **kw):
    m = util.mkm(c["rxns"], c["defs"], temperature=c["T"], decimal_precision=c["prec"],
                 parser=kw.pop("parser", "AbsoluteEnergyParser"), **kw)
    util.with_absolute(m, c["abs"])
    m.solver.get_data()
    bounded(m, attempts)
    return m


def bounded(m, attempts=4, log=None):
    """Register a hybrid method: short ODE integrations, given up after some attempts."""
    def hybrid(model, N):
        if log is not None:
            log.append(N)
        if N > attempts:
            raise GiveUp()
        start = list(map(float, model.solver.coverages)) if N > 0 else None
        if start is None or any(not (-0.5 < x < 1.5) for x in start):
            start = [0.0]*len(model.adsorbate_names)
        return model.solver.solve_ode(time_end=10.0**(1 - N), time_span=10.0**(-N), initial_cvgs=start)[-1]
    m.hybrid_method_register(hybrid)
    return m


def kinetics(c, e=None):
    e = e or relative(c["rxns"], c["abs"])
    return ref.Kinetics(c["rxns"], c["defs"], c["T"], e["Gaf"], e["Gar"])


def newton(K, x, steps=60, tol=None):
    """The steady state nearest to x in 60 digits."""
    ctx = ref.ctx
    x = [ref.conv(v) for v in x]
    for _ in range(steps):
        f, scale = K.dtheta(x)
        J, _M = K.jacobian(x)
        try:
            s = ctx.lu_solve(ctx.matrix(J), -ctx.matrix(f))
        except ZeroDivisionError:
            raise core.Skip("singular reference Jacobian")
        x = [a + b for a, b in zip(x, s)]
        if max(abs(v) for v in s) < ref.mpf(10)**-50*max([abs(v) for v in x] + [ref.mpf(10)**-30]):
            return x
    raise core.Skip("reference did not converge")


def physical(mon, c, cvgs, slack=0, what="steady state"):
    nm = ref.names(c["rxns"])
    x = [ref.conv(v) for v in cvgs]
    for a, v in zip(nm["ads"], x):
        mon.check(v >= -slack, "negative coverage in the " + what, adsorbate=a, value=str(v),
                  rxns=c["rxns"])
    for s in nm["site"]:
        free = ref.mpf(c["defs"][s]["total"])
        for a, v in zip(nm["ads"], x):
            f = ref.parse_formula(a)
            if "*_" + f["site"] == s:
                free -= f["nsite"]*v
        mon.check(free >= -slack - ref.mpf(10)**-15, "more sites covered than exist in the " + what,
                  site=s, value=str(free), rxns=c["rxns"])
