"""P04: the total reaction is a balanced combination that leaves the surface unchanged."""
from fractions import Fraction

from .. import gen, ref, util

RULE = ("a catalytic cycle whose total reaction was compared with the one implied by an exact, "
        "independently built combination of its elementary reactions")
MIN = {"total reactions": 60, "several routes": 5, "no total reaction": 8}


def cycle(rng):
    """A mechanism with one closed route, built from the route itself."""
    a, b = rng.sample(["C", "N", "S", "H", "O", "Cl"], 2)
    n, m = rng.randint(1, 3), rng.randint(1, 3)
    site = rng.choice(["s", "t", "top"])
    style = rng.randrange(4)

    def f(e, k):
        return e + (str(k) if k > 1 else "")
    prod = f(a, n) + f(b, m)
    src_a = rng.choice([1, 2, 3])      # gas molecule of a
    src_b = rng.choice([1, 2])
    rx = []

    def co(k):
        return str(k) if k > 1 else ""
    rx.append("{}_g + {}*_{s} -> {}{}_{s}".format(f(a, src_a), co(src_a), co(src_a), a, s=site))
    rx.append("{}_g + {}*_{s} <-> {}_{} -> {}{}_{s}".format(
        f(b, src_b), co(src_b), ("{0}-{0}".format(b) if src_b == 2 else b + "-" + b),
        ("2" if src_b == 2 else "") + site, co(src_b), b, s=site)
              if src_b == 2 else "{}_g + *_{s} -> {}_{s}".format(b, b, s=site))
    need = n + m
    if style in (0, 1):
        rx.append("{}{}_{s} + {}{}_{s} -> {}_g + {}*_{s}".format(
            co(n), a, co(m), b, prod, co(need), s=site))
    else:
        # stepwise: A + B -> AB-like growth
        rx.append("{}{}_{s} + {}{}_{s} -> {}_{s}{}".format(
            co(n), a, co(m), b, prod, " + {}*_{}".format(co(need - 1), site) if need > 1 else "",
            s=site))
        rx.append("{}_{s} -> {}_g + *_{s}".format(prod, prod, s=site))
    if style in (1, 3):
        # a spectator equilibrium that is not part of the route
        rx.append("Br_g + *_{s} -> Br_{s}".format(s=site))
    rng.shuffle(rx)
    # some steps written backwards
    if rng.random() < 0.4:
        k = rng.randrange(len(rx))
        st = [s.strip() for s in rx[k].replace("<->", "->").split("->")][::-1]
        rx[k] = (" <-> {} -> ".format(st[1]) if len(st) == 3 else " -> ").join([st[0], st[-1]])
    return rx


def nullspace(mat):
    """Rational basis of {x: x^T mat = 0}."""
    rows = [[Fraction(v) for v in r] for r in zip(*mat)]
    n = len(mat)
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        rows[r] = [v/rows[r][c] for v in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                rows[i] = [x - rows[i][c]*y for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    basis = []
    for free in [c for c in range(n) if c not in piv]:
        x = [Fraction(0)]*n
        x[free] = Fraction(1)
        for i, c in enumerate(piv):
            x[c] = -rows[i][free]
        basis.append(x)
    return basis


def rank(rows):
    rows = [list(map(Fraction, r)) for r in rows]
    k = 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(k, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        for i in range(k + 1, len(rows)):
            if rows[i][c] != 0:
                q = rows[i][c]/rows[k][c]
                rows[i] = [x - q*y for x, y in zip(rows[i], rows[k])]
        k += 1
    return k


def cases(rng, tier):
    for _ in range(160 if tier == "quick" else 1600):
        if rng.random() < 0.65:
            rx = cycle(rng)
        else:
            rx, _ = gen.mechanism(rng, n=rng.randint(2, 6), **gen.random_pool_args(rng))
        yield {"rxns": rx, "defs": gen.definitions(rng, rx)}


def run(case, mon):
    rx = case["rxns"]
    if not all(ref.balanced(r) for r in rx):
        raise RuntimeError("bad generator: {}".format(rx))
    m = util.mkm(rx, case["defs"], solver=None)
    nm = ref.names(rx)
    surf = list(nm["site"] + nm["ads"])
    fluid = list(nm["gas"] + nm["liquid"])
    S, F = [], []
    for r in rx:
        st = ref.parse_rxn(r)
        le, ri = ref.side(st[0]), ref.side(st[-1])
        S.append([le.get(s, 0) - ri.get(s, 0) for s in surf])
        F.append([le.get(s, 0) - ri.get(s, 0) for s in fluid])
    basis = nullspace(S)
    nets = [[sum(x*F[i][j] for i, x in enumerate(b)) for j in range(len(fluid))] for b in basis]
    try:
        text = m.parser.get_total_rxn_equation()
    except ValueError as e:
        # only right if the surface-neutral combinations give no (unique) total reaction
        mon.check(not nets or any(not any(n) for n in nets),
                  "no total reaction for a closed route", rxns=rx, error=str(e))
        mon.count("no total reaction")
        mon.nontrivial(rx)
        return
    mon.nontrivial(rx)
    mon.count("total reactions")
    if len(basis) > 1:
        mon.count("several routes")
    mon.show({"rxns": rx, "total": text})
    mon.check(bool(basis), "a total reaction although no combination is surface neutral",
              rxns=rx, total=text)
    st = ref.parse_rxn(text)
    for f in st[0] + st[-1]:
        mon.check(f["key"] in fluid, "the total reaction names a species that is not a fluid",
                  total=text, species=f["key"])
    mon.check(ref.balanced(text), "the total reaction is not balanced", total=text, rxns=rx)
    le, ri = ref.side(st[0]), ref.side(st[-1])
    mon.check(not set(le) & set(ri), "a species on both sides of the total reaction", total=text)
    net = [le.get(s, 0) - ri.get(s, 0) for s in fluid]
    from math import gcd
    g = 0
    for v in net:
        g = gcd(g, abs(v))
    mon.equal(g, 1, "the coefficients of the total reaction are not the smallest integers",
              total=text)
    # net must be what some surface-neutral combination gives
    if basis:
        mon.equal(rank(nets + [net]), rank(nets),
                  "the total reaction is not the net of any surface-neutral combination",
                  total=text, rxns=rx)
    if len(basis) == 1:
        x = basis[0]
        if sum(x) != 0 and all(v >= 0 for v in x) or all(v <= 0 for v in x):
            sign = 1 if sum(x) > 0 else -1
            mon.check(all(sign*w*n >= 0 for w, n in zip(nets[0], net)),
                      "the total reaction runs against its elementary reactions",
                      total=text, rxns=rx)
            mon.count("direction checked")
