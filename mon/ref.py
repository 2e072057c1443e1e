"""Independent reference: reaction grammar, energetics and kinetics.

Nothing here imports scaks. All kinetics are computed in a private mpmath
context, so the precision setting of the code under test cannot influence it.
"""
from mpmath import MPContext

KB_EV = 8.6173324e-5
H_EV = 4.135667662e-15
KB_J = 1.38064852e-23
H_J = 6.626070040e-34
P0 = 101325

ctx = MPContext()
ctx.dps = 60
mpf = ctx.mpf


# ---------------------------------------------------------------------------
# grammar
# ---------------------------------------------------------------------------
def parse_formula(text):
    """'2CO-O_2s' -> dict(stoich, name, site, nsite, kind, elements, key)"""
    text = text.strip()
    i = 0
    while text[i].isdigit():
        i += 1
    stoich = int(text[:i]) if i else 1
    key = text[i:]
    name, tail = key.split("_")
    j = 0
    while tail[j].isdigit():
        j += 1
    nsite = int(tail[:j]) if j else 1
    site = tail[j:]
    if site == "g":
        kind = "gas"
    elif site == "l":
        kind = "liquid"
    elif name == "*":
        kind = "site"
    elif "-" in name:
        kind = "ts"
    else:
        kind = "ads"
    return {"stoich": stoich, "name": name, "site": site, "nsite": nsite, "kind": kind,
            "elements": parse_elements(name), "key": key}


def parse_elements(name):
    counts = {}
    if name == "*":
        return counts
    i = 0
    while i < len(name):
        c = name[i]
        if c == "-":
            i += 1
            continue
        assert c.isupper(), name
        sym = c
        i += 1
        if i < len(name) and name[i].islower():
            sym += name[i]
            i += 1
        num = ""
        while i < len(name) and name[i].isdigit():
            num += name[i]
            i += 1
        counts[sym] = counts.get(sym, 0) + (int(num) if num else 1)
    return counts


def parse_state(text):
    return [parse_formula(t) for t in text.split("+")]


def parse_rxn(text):
    """[IS, FS] or [IS, TS, FS], each a list of formulas."""
    return [parse_state(t) for t in text.replace("<->", "->").split("->")]


def totals(state):
    """(elements, sites) of a state."""
    elems, sites = {}, {}
    for f in state:
        for e, n in f["elements"].items():
            elems[e] = elems.get(e, 0) + n*f["stoich"]
        if f["kind"] not in ("gas", "liquid"):
            sites[f["site"]] = sites.get(f["site"], 0) + f["nsite"]*f["stoich"]
    return elems, sites


def balanced(text):
    first = None
    for s in parse_rxn(text):
        t = totals(s)
        if first is None:
            first = t
        elif t != first:
            return False
    return True


def names(rxns):
    """Sorted species names by class."""
    out = {"ads": set(), "gas": set(), "liquid": set(), "site": set(), "ts": set()}
    for r in rxns:
        for s in parse_rxn(r):
            for f in s:
                if f["kind"] != "site":
                    out[f["kind"]].add(f["key"])
                if f["kind"] not in ("gas", "liquid"):
                    out["site"].add("*_" + f["site"])
    return {k: tuple(sorted(v)) for k, v in out.items()}


def side(state):
    """Merged {species key: number} of a state, free sites as '*_s'."""
    d = {}
    for f in state:
        d[f["key"]] = d.get(f["key"], 0) + f["stoich"]
    return d


# ---------------------------------------------------------------------------
# kinetics
# ---------------------------------------------------------------------------
def k_tst(Ga, T):
    kT = mpf(KB_EV)*mpf(T)
    return kT/mpf(H_EV)*ctx.exp(-mpf(Ga)/kT)


class Kinetics(object):
    """Mass-action kinetics of a list of reactions."""

    def __init__(self, rxns, definitions, T, Gaf, Gar, kf=None, kr=None):
        self.rxns = rxns
        self.states = [parse_rxn(r) for r in rxns]
        self.names = names(rxns)
        self.defs = definitions
        self.T = T
        self.kf = kf if kf is not None else [k_tst(g, T) for g in Gaf]
        self.kr = kr if kr is not None else [k_tst(g, T) for g in Gar]
        self.left = [side(s[0]) for s in self.states]
        self.right = [side(s[-1]) for s in self.states]

    def activities(self, cvgs):
        act = {}
        for g in self.names["gas"]:
            act[g] = mpf(self.defs[g]["pressure"])
        for l in self.names["liquid"]:
            act[l] = mpf(self.defs[l]["concentration"])
        for a, c in zip(self.names["ads"], cvgs):
            act[a] = conv(c)
        for s in self.names["site"]:
            free = mpf(self.defs[s]["total"])
            for a in self.names["ads"]:
                f = parse_formula(a)
                if "*_" + f["site"] == s:
                    free -= f["nsite"]*act[a]
            act[s] = free
        return act

    def rates(self, cvgs):
        act = self.activities(cvgs)

        def rate(k, sd):
            r = conv(k)
            for sp, n in sd.items():
                r *= act[sp]**n
            return r
        rf = [rate(k, sd) for k, sd in zip(self.kf, self.left)]
        rr = [rate(k, sd) for k, sd in zip(self.kr, self.right)]
        return rf, rr

    def net_stoich(self, i, sp):
        return self.right[i].get(sp, 0) - self.left[i].get(sp, 0)

    def rates_of(self, species, cvgs):
        """d[species]/dt for each species, and the sum of the term magnitudes."""
        rf, rr = self.rates(cvgs)
        vals, scales = [], []
        for sp in species:
            v = mpf(0)
            m = mpf(0)
            for i in range(len(self.rxns)):
                n = self.coef(i, sp)
                v += n*(rf[i] - rr[i])
                m += abs(n)*(abs(rf[i]) + abs(rr[i]))
            vals.append(v)
            scales.append(m)
        return vals, scales

    def dtheta(self, cvgs):
        return self.rates_of(self.names["ads"], cvgs)

    def jacobian(self, cvgs, rates=None):
        """d(dtheta_i/dt)/dtheta_j and the sums of the term magnitudes."""
        act = self.activities(cvgs)
        ads = self.names["ads"]
        # d act / d theta_j
        dact = []
        for a in ads:
            f = parse_formula(a)
            dact.append({a: 1, "*_" + f["site"]: -f["nsite"]})

        def drate(k, sd, j):
            tot, mag = mpf(0), mpf(0)
            for sp, n in sd.items():
                if sp not in dact[j]:
                    continue
                t = conv(k)*n*dact[j][sp]*act[sp]**(n - 1)
                for q, m in sd.items():
                    if q != sp:
                        t *= act[q]**m
                tot += t
                mag += abs(t)
            return tot, mag
        n = len(ads)
        J = [[mpf(0)]*n for _ in range(n)]
        M = [[mpf(0)]*n for _ in range(n)]
        for r in range(len(self.rxns)):
            for j in range(n):
                df, mf = drate(self.kf[r], self.left[r], j)
                dr, mr = drate(self.kr[r], self.right[r], j)
                for i, a in enumerate(ads):
                    c = self.coef(r, a)
                    J[i][j] += c*(df - dr)
                    M[i][j] += abs(c)*(mf + mr)
        return J, M

    def coef(self, r, sp):
        return self.net_stoich(r, sp)

    def tofs(self, cvgs):
        """Net production of gases then liquids."""
        return self.rates_of(self.names["gas"] + self.names["liquid"], cvgs)


class UnitKinetics(Kinetics):
    """What a route that ignores adsorbate coefficients computes: every reaction counts
    once, with the direction of the first occurrence of the adsorbate."""

    def coef(self, r, sp):
        if sp not in self.names["ads"]:
            return self.net_stoich(r, sp)
        for k, st in enumerate(self.states[r]):
            if any(f["key"] == sp for f in st):
                return -1 if k == 0 else 1
        return 0

    def special(self):
        """The mechanism has a coefficient that such a route gets wrong."""
        return any(self.coef(r, a) != self.net_stoich(r, a)
                   for r in range(len(self.rxns)) for a in self.names["ads"])


def conv(x):
    """Exact conversion of a number of the code under test to this context."""
    if hasattr(x, "_mpf_"):
        return ctx.make_mpf(x._mpf_)
    return mpf(float(x)) if not isinstance(x, int) else mpf(x)


def state_energy(state, absolute):
    e = 0.0
    for f in state:
        e += f["stoich"]*absolute[f["key"]]
    return e
