"""Workload generators: random valid mechanisms, energies, conditions."""
import itertools

from . import ref

ELEMENTS = ["H", "C", "N", "O", "S", "Cl", "F", "Na", "Br"]
SITES = ["s", "t", "b", "h", "ss", "top", "fcc"]
# names that begin like the gas and liquid phases
PHASE_LIKE = ["gb", "lt", "ga", "ll", "gg", "gl", "lg", "gl", "lg"]
# names with capitals
CAPITAL = ["Pt", "B", "sB", "Gas", "L"]


def comp_string(rng, comp):
    """A formula for a composition, sometimes with an element split in two."""
    parts = []
    for e, n in comp:
        if n >= 2 and rng.random() < 0.12:
            k = rng.randint(1, n - 1)
            parts += [(e, k), (e, n - k)]
        else:
            parts.append((e, n))
    if len({e for e, _ in parts}) == len(parts) or rng.random() < 0.5:
        rng.shuffle(parts)
    return "".join(e + (str(n) if n > 1 else "") for e, n in parts)


def pool(rng, nelem=2, nsites=1, nads=4, ngas=3, nliq=0, multi=0.25, wide=0.0):
    """A pool of (key, vector-dict) species.

    A wide adsorbate occupies three to five sites; its vector counts one, and `reactions` adds the
    free sites that are missing.
    """
    elems = rng.sample(ELEMENTS, nelem)
    sites = rng.sample(SITES, nsites)
    if rng.random() < 0.25:
        sites[0] = rng.choice(PHASE_LIKE + CAPITAL)
    species = {}
    comps = []
    for e in elems:
        comps.append(((e, 1),))
        comps.append(((e, 2),))
    if nelem > 1:
        for a, b in itertools.combinations(elems, 2):
            comps += [((a, 1), (b, 1)), ((a, 1), (b, 2)), ((a, 2), (b, 1)), ((a, 3), (b, 1)),
                      ((a, 2), (b, 2))]
    base = comps[:2*nelem]
    named = {}

    def name(c):
        if c not in named:
            named[c] = comp_string(rng, c)
        return named[c]

    def add(c, site, n):
        shown = n
        if site not in ("g", "l") and rng.random() < wide:
            shown, n = rng.randint(3, 5), 1
        key = "{}_{}{}".format(name(c), "" if shown == 1 else shown, site)
        vec = dict(("E" + e, k) for e, k in c)
        if site not in ("g", "l"):
            vec["S" + site] = n
        species[key] = vec
    # atoms adsorbed, simple molecules in the gas
    atoms = [c for c in base if c[0][1] == 1]
    rng.shuffle(atoms)
    for c in atoms[:max(1, nads//2)]:
        add(c, rng.choice(sites), 1)
    guard = 0
    while sum(1 for k in species if ref.parse_formula(k)["kind"] == "ads") < nads and guard < 60:
        guard += 1
        add(rng.choice(comps), rng.choice(sites), 2 if rng.random() < multi else 1)
    guard = 0
    while sum(1 for k in species if k.endswith("_g")) < ngas and guard < 60:
        guard += 1
        add(rng.choice(comps if rng.random() < 0.6 else base), "g", 1)
    guard = 0
    while sum(1 for k in species if k.endswith("_l")) < nliq and guard < 60:
        guard += 1
        add(rng.choice(comps), "l", 1)
    for s in sites:
        species["*_" + s] = {"S" + s: 1}
    return species


def state_string(rng, d, repeat=0.0):
    """{'CO_s': 2} -> '2CO_s', sometimes 'CO_s + CO_s'."""
    items = []
    for k, n in d.items():
        while n > 0:
            m = n
            if n > 1 and rng.random() < repeat:
                m = rng.randint(1, n - 1)
            items.append((str(m) if m > 1 else "") + k)
            n -= m
    rng.shuffle(items)
    sep = " + "
    if rng.random() < 0.05:
        sep = "+"
    return sep.join(items)


def ts_string(rng, vec, extra=0.0):
    """A transition state with the elements and sites of `vec`, or None.

    extra: probability of an atom that is adsorbed apart from the rest.
    """
    more = ""
    if rng.random() < extra:
        vec = dict(vec)
        e = rng.choice([k for k in vec if k[0] == "E"])
        s = [k for k in vec if k[0] == "S"]
        s = [k for k in s if vec[k] > 1] if len(s) == 1 else s
        if s and sum(n for k, n in vec.items() if k[0] == "E") > 2:
            s = rng.choice(s)
            for k in (e, s):
                vec[k] -= 1
                if not vec[k]:
                    del vec[k]
            more = " + {}_{}".format(e[1:], s[1:])
    elems = [(k[1:], n) for k, n in vec.items() if k[0] == "E"]
    sites = [(k[1:], n) for k, n in vec.items() if k[0] == "S"]
    atoms = sum(n for _, n in elems)
    if not sites or atoms < 2:
        return None
    if len(elems) == 1:
        e, n = elems[0]
        k = rng.randint(1, n - 1)
        left, right = [(e, k)], [(e, n - k)]
    else:
        k = rng.randint(1, len(elems) - 1)
        left, right = elems[:k], elems[k:]

    def w(p):
        return "".join(e + (str(n) if n > 1 else "") for e, n in p)
    rng.shuffle(sites)
    s, n = sites[0]
    out = "{}-{}_{}{}".format(w(left), w(right), n if n > 1 else "", s)
    for s, n in sites[1:]:
        out += " + {}*_{}".format(n if n > 1 else "", s)
    return out + more


def buckets(species, size):
    keys = sorted(species)
    table = {}
    for r in range(1, size + 1):
        for combo in itertools.combinations_with_replacement(keys, r):
            vec = {}
            for k in combo:
                for e, n in species[k].items():
                    vec[e] = vec.get(e, 0) + n
            if not any(e[0] == "E" for e in vec) or not any(e[0] == "S" for e in vec):
                continue
            d = {}
            for k in combo:
                d[k] = d.get(k, 0) + 1
            table.setdefault(tuple(sorted(vec.items())), []).append(d)
    return {v: ds for v, ds in table.items() if len(ds) > 1}


def reactions(rng, species, n, size=4, overlap=0.0, repeat=0.0, ts=0.6, extra=0.0,
              multiple=0.0, third=0.0):
    """Up to n balanced reactions over the pool (distinct expressions).

    third: probability of a fluid that takes part in all states of a reaction.

    multiple: probability of writing a reaction two or three times over.
    """
    table = buckets(species, size)
    if not table:
        return []
    vecs = sorted(table)
    out, guard = [], 0
    seen = set()
    while len(out) < n and guard < 400:
        guard += 1
        v = rng.choice(vecs)
        a, b = rng.sample(table[v], 2)
        common = set(a) & set(b)
        if common and not rng.random() < overlap:
            # remove the common part from both sides
            a, b = strip(a, b)
            if not a or not b:
                continue
            vec = {}
            for k, m in a.items():
                for e, q in species[k].items():
                    vec[e] = vec.get(e, 0) + q*m
            if not any(e[0] == "S" for e in vec):
                continue
        else:
            vec = dict(v)
        a, b, vec = level(a, b, vec)
        fluid = any(k.endswith(("_g", "_l")) for k in list(a) + list(b))
        if rng.random() < multiple*(3 if fluid else 1):
            k = rng.randint(2, 3)
            if max(list(a.values()) + list(b.values()))*k <= 8:
                a, b, vec = [{x: n*k for x, n in d.items()} for d in (a, b, vec)]
        key = (tuple(sorted(a.items())), tuple(sorted(b.items())))
        if key in seen or (key[1], key[0]) in seen:
            continue
        seen.add(key)
        left = state_string(rng, a, repeat)
        right = state_string(rng, b, repeat)
        t = ts_string(rng, vec, extra) if rng.random() < ts else None
        if t and rng.random() < third:
            m = rng.choice(sorted(k for k in species if k.endswith(("_g", "_l"))) or [None])
            if m:
                left, t, right = ["{} + {}".format(*rng.sample([m, x], 2)) for x in (left, t, right)]
        if t:
            out.append("{} <-> {} -> {}".format(left, t, right))
        else:
            out.append("{} -> {}".format(left, right))
    return out


def level(a, b, vec):
    """Give both sides the same number of sites, with free sites on the side that has fewer."""
    a, b, vec = dict(a), dict(b), dict(vec)
    total = []
    for d in (a, b):
        t = {}
        for k, n in d.items():
            f = ref.parse_formula(k)
            if f["kind"] in ("ads", "site"):
                t[f["site"]] = t.get(f["site"], 0) + n*f["nsite"]
        total.append(t)
    for s in sorted(set(total[0]) | set(total[1])):
        x, y = total[0].get(s, 0), total[1].get(s, 0)
        if x == y == vec.get("S" + s, 0):
            continue
        d = a if x < y else b
        if x != y:
            d["*_" + s] = d.get("*_" + s, 0) + abs(x - y)
            m = min(a.get("*_" + s, 0), b.get("*_" + s, 0))
            for d in (a, b):
                if m:
                    d["*_" + s] -= m
                    if not d["*_" + s]:
                        del d["*_" + s]
        else:
            m = 0
        vec["S" + s] = max(x, y) - m
    return a, b, vec


def strip(a, b):
    a, b = dict(a), dict(b)
    for k in list(a):
        m = min(a[k], b.get(k, 0))
        a[k] -= m
        if k in b:
            b[k] -= m
    return ({k: n for k, n in a.items() if n > 0}, {k: n for k, n in b.items() if n > 0})


def mechanism(rng, **kw):
    """A random valid mechanism: (rxns, definitions)."""
    overlap = kw.pop("overlap", 0.0)
    repeat = kw.pop("repeat", 0.0)
    n = kw.pop("n", None) or rng.randint(1, 6)
    ts = kw.pop("ts", 0.6)
    size = kw.pop("size", 4)
    extra = kw.pop("extra", 0.0)
    multiple = kw.pop("multiple", 0.0)
    third = kw.pop("third", 0.0)
    while True:
        sp = pool(rng, **kw)
        rx = reactions(rng, sp, n, size=size, overlap=overlap, repeat=repeat, ts=ts,
                       extra=extra, multiple=multiple, third=third)
        if rx and ref.names(rx)["ads"]:
            return rx, definitions(rng, rx)


def definitions(rng, rxns, total=None):
    nm = ref.names(rxns)
    d = {}
    for g in nm["gas"]:
        d[g] = {"pressure": round(10**rng.uniform(-3, 1), 6)}
    for l in nm["liquid"]:
        d[l] = {"concentration": round(10**rng.uniform(-2, 1), 6)}
    for s in nm["site"]:
        t = total if total is not None else rng.choice([1.0, 1.0, 0.5, 0.25, 0.8])
        d[s] = {"site_name": s[2:], "type": "site", "total": t}
    return d


def random_pool_args(rng):
    return dict(nelem=rng.choice([1, 2, 2, 2, 3]), nsites=rng.choice([1, 1, 2]),
                nads=rng.randint(2, 5), ngas=rng.randint(1, 4), nliq=rng.choice([0, 0, 0, 1]),
                multi=rng.choice([0.0, 0.3]), wide=rng.choice([0.0, 0.0, 0.0, 0.35]),
                multiple=rng.choice([0.0, 0.1]), third=rng.choice([0.0, 0.0, 0.15]))


def coverages(rng, rxns, defs):
    """A physical coverage vector (adsorbates in sorted order)."""
    nm = ref.names(rxns)
    out = {}
    for s in nm["site"]:
        ads = [a for a in nm["ads"] if "*_" + ref.parse_formula(a)["site"] == s]
        w = [rng.random()**3 for _ in ads]
        tot = sum(w) + rng.random()**3 + 1e-9
        for a, x in zip(ads, w):
            out[a] = defs[s]["total"]*x/tot/ref.parse_formula(a)["nsite"]
    return [out[a] for a in nm["ads"]]


def relative_energies(rng, n, lo=-0.8, hi=1.6):
    """Consistent Gaf, Gar, dG lists."""
    Gaf, Gar, dG = [], [], []
    for _ in range(n):
        g = round(rng.uniform(lo, 0.8), 4)
        barrier = round(max(g, 0.0) + (rng.uniform(0, hi) if rng.random() < 0.8 else 0.0), 4)
        Gaf.append(barrier)
        dG.append(g)
        Gar.append(barrier - g)
    return {"Gaf": Gaf, "Gar": Gar, "dG": dG}


def absolute_energies(rng, rxns, spread=1.0):
    """Absolute energies of every species; transition states above both ends."""
    nm = ref.names(rxns)
    e = {}
    for k in nm["gas"] + nm["liquid"] + nm["ads"]:
        e[k] = round(rng.uniform(-spread, spread), 4)
    for k in nm["site"]:
        e[k] = round(rng.uniform(-0.3, 0.3), 4) if rng.random() < 0.5 else 0.0
    for k in nm["ts"]:
        e[k] = 0.0
    for r in rxns:
        st = ref.parse_rxn(r)
        if len(st) == 3:
            ends = max(ref.state_energy(st[0], e), ref.state_energy(st[-1], e))
            rest = sum(f["stoich"]*e[f["key"]] for f in st[1] if f["kind"] != "ts")
            for f in st[1]:
                if f["kind"] == "ts":
                    e[f["key"]] = max(e[f["key"]], round(ends - rest + rng.uniform(0.05, 1.0), 4))
    return e
