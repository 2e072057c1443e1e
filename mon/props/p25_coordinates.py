"""P25: coordinate groups form a consistent algebra."""
import copy

RULE = "an operation on coordinate groups compared with the specified result; distinct (operation, sizes, overlap)"
MIN = {"sums": 1000, "translations": 1000, "additions": 1000, "refusals": 1000, "overlapping sums": 300}
ELEMENTS = ["V", "V", "C", "O_s", "CO", "s", "H"]
TOL = 1e-4


def group(rng, n, pool):
    """Distinct sites, each slightly perturbed within the tolerance."""
    sites = rng.sample(pool, min(n, len(pool)))
    jitter = rng.choice([0.0, 1e-5, 2e-5])
    return [[x + rng.uniform(-jitter, jitter) for x in s] for s in sites], [rng.choice(ELEMENTS) for _ in sites]


def cases(rng, tier):
    for i in range(150 if tier == "quick" else 1500):
        c = {"groups": [], "vectors": [], "adds": []}
        scale = rng.choice([1.0, 1.0, 0.5, 3e-4, 100.0])
        far = rng.choice([0.0, 0.0, 0.0, 40.0, -300.0])
        pool = [[far + scale*x, scale*y - far, scale*z] for x in range(3) for y in range(3) for z in range(2)]
        if rng.random() < 0.3:
            pool = pool[:6]
        for _ in range(9):
            cs, es = group(rng, rng.randint(0, 12), pool)
            c["groups"].append([cs, es if rng.random() < 0.85 else None])
        for _ in range(9):
            c["vectors"].append(rng.choice([[rng.uniform(-2, 2) for _ in range(3)], [scale, 0.0, 0.0], [1, 0, -1], None,
                                            [0.0, 0.0, 0.0]]))
        for _ in range(9):
            cs, es = group(rng, rng.randint(0, 4), pool)
            c["adds"].append([cs, es if rng.random() < 0.7 else None])
        c["bad"] = [rng.choice(["tuple", "short", "long", "int", "text", "none"]) for _ in range(9)]
        yield c


def near(a, b):
    return all(abs(x - y) <= TOL for x, y in zip(a, b))


def ref_sum(a, b):
    """(coordinates, elements) of the sum of two groups without repeated sites."""
    cs, es = [list(c) for c in a[0]], list(a[1])
    for c, e in zip(*b):
        for k, q in enumerate(a[0]):
            if near(c, q):
                if a[1][k] == "V":
                    es[k] = e
                break
        else:
            cs.append(list(c))
            es.append(e)
    return cs, es


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(p - q) <= tol for p, q in zip(x, y))
                                    for x, y in zip(a, b))


def content(g):
    return [list(c) for c in g.coordinates()], list(g.elements())



def run(case, mon):
    from scaks.utilities.coordinate_utilities import CoordsGroup

    def build(spec):
        cs, es = copy.deepcopy(spec)
        if es is None:
            return CoordsGroup(cs), (copy.deepcopy(cs), ["V"]*len(cs))
        return CoordsGroup(cs, es), (copy.deepcopy(cs), list(es))

    specs = case["groups"]
    for k, spec in enumerate(specs):
        g, (cs, es) = build(spec)
        mon.equal(content(g), (cs, es), "a group holds other sites than given")
        mon.equal(len(g), len(cs), "the size of a group")
        # translations
        v = case["vectors"][k]
        shift = v if v is not None else [0.0]*3
        m = g.move(v) if v is not None else g.move()
        got = content(m)
        mon.check(close(got[0], [[x + d for x, d in zip(c, shift)] for c in cs]), "a translated group",
                  got=got[0], vector=v, sites=cs)
        mon.equal(got[1], es, "a translation changed the elements")
        mon.equal(content(g), (cs, es), "a translation changed the group itself")
        back = content(m.move([-d for d in shift]))
        mon.check(close(back[0], cs, 1e-9*(1 + max(map(abs, shift)))) and back[1] == es,
                  "translating back does not give the group", got=back[0], want=cs)
        # the new group is independent
        m.append([9.0, 9.0, 9.0], "X")
        mon.equal(content(g), (cs, es), "adding to a translated group changed the original")
        mon.count("translations")
        mon.nontrivial(["move", len(cs), v is None])
        # sums
        other = specs[(k + 1) % len(specs)]
        h, (cs2, es2) = build(other)
        s = g + h
        want = ref_sum((cs, es), (cs2, es2))
        got = content(s)
        mon.check(close(got[0], want[0], 1e-12) and got[1] == want[1], "the sum of two groups", got=got, want=want)
        mon.equal(content(g), (cs, es), "a sum changed its first operand")
        mon.equal(content(h), (cs2, es2), "a sum changed its second operand")
        mon.count("sums")
        overlap = len(cs) + len(cs2) - len(want[0])
        if overlap:
            mon.count("overlapping sums")
        mon.nontrivial(["add", len(cs), len(cs2), overlap])
        same = content(g + g)
        mon.equal(same, (cs, es), "a group added to itself")
        e, _ = build([[], None])
        mon.equal(content(g + e), (cs, es), "a group plus nothing")
        mon.equal(content(e + g), (cs, es), "nothing plus a group")
        mon.equal(len(s), len(want[0]), "the size of a sum")
        # translation and addition commute
        if v is not None:
            a, b = content((g + h).move(v)), content(g.move(v) + h.move(v))
            mon.check(close(a[0], b[0], 1e-7*(1 + max(map(abs, v)))) and a[1] == b[1],
                      "translating a sum differs from adding translations", got=a, want=b)
        # associative
        t, (cs3, es3) = build(specs[(k + 2) % len(specs)])
        a, b = content((g + h) + t), content(g + (h + t))
        mon.check(sorted(a[1]) == sorted(b[1]) and len(a[0]) == len(b[0]) and
                  all(any(near(x, y) and p == q for y, q in zip(*b)) for x, p in zip(*a)),
                  "the sum of three groups depends on the order of the additions", got=a, want=b)
        # growing
        acs, aes = case["adds"][k]
        g2, (cs, es) = build(spec)
        if spec[1] is None or k % 2 == 0:
            g2.extend(copy.deepcopy(acs), copy.deepcopy(aes)) if aes is not None else g2.extend(copy.deepcopy(acs))
        else:
            for i, c in enumerate(acs):
                g2.append(list(c), aes[i]) if aes is not None else g2.append(list(c))
        mon.equal(content(g2), (cs + acs, es + (aes if aes is not None else ["V"]*len(acs))), "a group that was extended")
        mon.equal(len(g2), len(cs) + len(acs), "the size of an extended group")
        mon.count("additions")
        # refusals
        bad = {"tuple": (0.0, 0.0, 0.0), "short": [0.0, 0.0], "long": [0.0]*4, "int": [0.0, 1, 0.0],
               "text": ["0.0", 0.0, 0.0], "none": None}[case["bad"][k]]
        mon.raises(lambda: g2.append(bad, "C"), (ValueError, TypeError), "a wrong coordinate was accepted", value=str(bad))
        mon.raises(lambda: g2.append([0.0, 0.0, 0.0], 3), (ValueError, TypeError), "a wrong element was accepted")
        mon.raises(lambda: CoordsGroup([[0.0, 0.0, 0.0]], ["C", "O"]), ValueError, "groups of different lengths accepted")
        mon.raises(lambda: CoordsGroup([[0.0, 0.0, 0.0]]*3, ["C"]), ValueError, "groups of different lengths accepted")
        mon.count("refusals", 4)
    mon.show({"groups": [len(s[0]) for s in specs]})
