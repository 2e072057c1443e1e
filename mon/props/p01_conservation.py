"""P01: reaction expressions are read exactly and accepted iff balanced."""
import re

from .. import gen, ref, util

RULE = ("a formula, state or reaction string whose reading or acceptance the independent grammar "
        "oracle decided; distinct = distinct strings")
ASSUMPTIONS = ["formulas follow the documented grammar [n]Species_[m]site with upper-case elements"]
MIN = {"formulas": 200, "states": 200, "balanced accepted": 200, "unbalanced rejected": 200,
       "models accepted": 20, "models rejected": 20, "liquid formulas": 5, "ts formulas": 10,
       "exchanged counts": 5, "sites named like phases": 20, "malformed refused": 200}


def rand_formula(rng):
    kind = rng.random()
    n = rng.choice([1, 1, 1, 2, 3, 4, 10, 12, 120])
    m = rng.choice([1, 1, 1, 2, 3, 4, 10, 25])
    site = rng.choice(gen.SITES + ["hcp", "stepX", "gb", "lg"])

    def sp():
        parts = []
        for _ in range(rng.randint(1, 4)):
            e = rng.choice(gen.ELEMENTS + ["Ne", "Si", "Pt"])
            k = rng.choice([1, 1, 2, 3, 11, 11, rng.choice([10, 60, 100, 128, 1000])])
            parts.append(e + (str(k) if k > 1 else ""))
        return "".join(parts)
    pre = str(n) if n > 1 or rng.random() < 0.05 else ""
    if kind < 0.15:
        return pre + "*_" + site
    if kind < 0.35:
        return pre + sp() + "_g"
    if kind < 0.45:
        return pre + sp() + "_l"
    nm = (str(m) if m > 1 else "")
    if kind < 0.65:
        return pre + sp() + "-" + sp() + "_" + nm + site
    return pre + sp() + "_" + nm + site


def mutate(rng, rxn):
    """A reaction near `rxn`; the oracle decides whether it is still balanced."""
    states = [s.strip() for s in rxn.replace("<->", "->").split("->")]
    k = rng.randrange(len(states))
    terms = [t.strip() for t in states[k].split("+")]
    j = rng.randrange(len(terms))
    f = ref.parse_formula(terms[j])
    kind = rng.randrange(7)
    if kind == 6:
        return exchange(rng, states)
    if kind == 0:
        f2 = "{}{}".format(f["stoich"] + rng.choice([1, 1, 2]), f["key"])
    elif kind == 1 and f["kind"] not in ("gas", "liquid", "site"):
        f2 = "{}{}_{}{}".format(f["stoich"], f["name"], f["nsite"] + 1, f["site"])
    elif kind == 2 and f["kind"] not in ("gas", "liquid"):
        f2 = "{}{}_{}{}".format(f["stoich"], f["name"], "" if f["nsite"] == 1 else f["nsite"],
                                rng.choice(gen.SITES))
    elif kind == 3 and f["kind"] != "site":
        f2 = "{}{}{}_{}".format(f["stoich"], f["name"], rng.choice(["H", "O", "Cl2"]),
                                f["key"].split("_")[1])
    elif kind == 4 and len(terms) > 1:
        terms.pop(j)
        f2 = None
    else:
        terms.append(rng.choice(["*_s", "H_s", "O2_g", "2H2O_l"]))
        f2 = None
    if f2 is not None:
        terms[j] = f2
    states[k] = " + ".join(terms)
    return join(states)


def exchange(rng, states):
    """The last state with the counts of two elements of one species exchanged."""
    terms = [t.strip() for t in states[-1].split("+")]
    rng.shuffle(terms)
    for j, t in enumerate(terms):
        f = ref.parse_formula(t)
        e = sorted(f["elements"].items())
        if f["kind"] == "site" or len(e) < 2 or "-" in f["name"]:
            continue
        rng.shuffle(e)
        (a, na), (b, nb) = e[:2]
        e[:2] = [(a, nb), (b, na)]
        name = "".join(k + (str(n) if n > 1 else "") for k, n in e)
        terms[j] = "{}{}_{}".format(f["stoich"], name, f["key"].split("_")[1])
        break
    return join(states[:-1] + [" + ".join(terms)])


def garble_formula(rng, text):
    """Texts that are not formulas although they contain one."""
    t = text.lstrip("0123456789")
    return rng.choice(["2 " + t, "1.5" + t, text + " CO_g", "C=" + t, text + "2", text + "(1)", text + " ?",
                       "(" + text + ")", text + ".", "$" + text, t.replace("_", " _"), text + "&" + text])


def garble_rxn(rng, states, text):
    j = rng.randrange(len(states))
    terms = [t.strip() for t in states[j].split("+")]
    k = rng.randrange(len(terms))
    terms[k] = garble_formula(rng, terms[k])
    mixed = join(states[:j] + [" + ".join(terms)] + states[j + 1:])
    return rng.choice([mixed, mixed, text + " -> " + states[0] + " -> " + states[-1], text + " > " + states[0],
                       text + " -> " + states[0] + " > " + states[-1], " + ".join(states)])


def join(states):
    if len(states) == 3:
        return "{} <-> {} -> {}".format(*states)
    return "{} -> {}".format(*states)


def cases(rng, tier):
    n = 60 if tier == "quick" else 600
    for _ in range(n):
        forms = [rand_formula(rng) for _ in range(12)]
        states = []
        for _ in range(12):
            st = [rand_formula(rng) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.4:
                st.append(rng.choice(st))
            states.append(rng.choice([" + ", "+", "  +  "]).join(st))
        rx, _d = gen.mechanism(rng, overlap=0.2, repeat=0.2, n=8, extra=0.2, **gen.random_pool_args(rng))
        if rng.random() < 0.4:
            # A site whose name begins like a phase.
            new = rng.choice(["g", "l"]) + rng.choice(["b", "s", "l", "xy"])
            rx = [re.sub(r"_(\d*)s\b", r"_\g<1>" + new, r) for r in rx]
        bad = [mutate(rng, r) for r in rx for _ in range(3)]
        split = [[s.strip() for s in r.replace("<->", "->").split("->")] for r in rx]
        wrong = [garble_rxn(rng, s, r) for s, r in zip(split, rx)]
        yield {"wrong formulas": [garble_formula(rng, f) for f in forms], "wrong": wrong, "formulas": forms, "states": states, "rxns": rx + bad, "good": rx,
               "defs": gen.definitions(rng, rx + bad), "bad": bad[rng.randrange(len(bad))],
               "at": rng.randint(0, len(rx))}


def check_formula(text, mon):
    from scaks.parsers.rxn_parser import ChemFormula
    w = ref.parse_formula(text)
    f = ChemFormula(text)
    mon.count("formulas")
    if w["kind"] == "liquid":
        mon.count("liquid formulas")
    if w["kind"] == "ts":
        mon.count("ts formulas")
    mon.nontrivial("f:" + text)
    mon.equal(f.stoichiometry(), w["stoich"], "coefficient of a formula", formula=text)
    mon.equal(f.species_site(), w["key"], "species of a formula", formula=text)
    mon.equal(f.species(), w["name"], "species name of a formula", formula=text)
    mon.equal(f.site(), w["site"], "site of a formula", formula=text)
    mon.equal(f.nsite(), w["nsite"], "number of sites of a formula", formula=text)
    mon.equal(f.formula(), text, "formula text", formula=text)
    kind = {"ts": "adsorbate", "ads": "adsorbate"}.get(w["kind"], w["kind"])
    mon.equal(f.type(), kind, "type of a formula", formula=text)
    mon.equal(f.get_species_elements_dict(), w["elements"], "elements of a species", formula=text)
    mon.equal(f.get_elements_dict(), {e: n*w["stoich"] for e, n in w["elements"].items()},
              "elements of a formula", formula=text)
    mon.equal(f.get_sites_dict(), {w["site"]: w["nsite"]*w["stoich"]}, "sites of a formula",
              formula=text)


def check_state(text, mon):
    from scaks.parsers.rxn_parser import ChemState
    st = ref.parse_state(text)
    s = ChemState(text)
    mon.count("states")
    mon.nontrivial("s:" + text)
    elems, sites = ref.totals(st)
    mon.equal(s.get_elements_dict(), elems, "elements of a state", state=text)
    mon.equal(s.get_sites_dict(), sites, "sites of a state", state=text)
    mon.equal(s.get_species_site_dict(), ref.side(st), "species of a state", state=text)
    mon.equal(list(s.get_species_site_list()), [f["key"] for f in st], "species list of a state",
              state=text)


def check_rxn(text, mon):
    from scaks.parsers.rxn_parser import RxnEquation
    eq = RxnEquation(text)
    states = ref.parse_rxn(text)
    mon.equal([[f.species_site() for f in st] for st in eq.to_formula_list()],
              [[f["key"] for f in st] for st in states], "states of a reaction", rxn=text)
    mon.nontrivial("r:" + text)
    if any(f["site"][:1] in "gl" and len(f["site"]) > 1 for st in states for f in st):
        mon.count("sites named like phases")
    if ref.balanced(text):
        mon.count("balanced accepted")
        try:
            r = eq.check_conservation()
        except ValueError as e:
            mon.violation("a balanced reaction was rejected", rxn=text, error=str(e))
        else:
            mon.check(bool(r), "a balanced reaction was not confirmed", rxn=text, got=r)
    else:
        mon.count("unbalanced rejected")
        ends = [ref.totals(states[0])[0], ref.totals(states[-1])[0]]
        mon.count("exchanged counts", sorted(ends[0].values()) == sorted(ends[1].values()) and ends[0] != ends[1] and
                  sorted(ends[0]) == sorted(ends[1]))
        mon.raises(eq.check_conservation, (ValueError,), "an unbalanced reaction was accepted",
                   rxn=text)


def run(case, mon):
    for f in case["formulas"]:
        check_formula(f, mon)
    for s in case["states"]:
        check_state(s, mon)
    for r in case["rxns"]:
        check_rxn(r, mon)
    from scaks.parsers.rxn_parser import ChemFormula, RxnEquation
    for f in case["wrong formulas"]:
        mon.count("malformed refused")
        mon.raises(lambda: ChemFormula(f), (Exception,), "a text that is no formula was read as one", text=f)
    for r in case["wrong"]:
        mon.count("malformed refused")
        mon.raises(lambda: RxnEquation(r).check_conservation(), (Exception,),
                   "a text that is no reaction was read as one", text=r)
    good = case["good"]
    mon.raises(lambda: util.mkm([case["wrong"][0]] + good, case["defs"], solver=None), (Exception,),
               "a model with a malformed reaction was built", bad=case["wrong"][0])
    util.mkm(good, case["defs"], solver=None)
    mon.count("models accepted")
    if not ref.balanced(case["bad"]):
        rx = list(good)
        rx.insert(case["at"], case["bad"])
        mon.raises(lambda: util.mkm(rx, case["defs"], solver=None), (ValueError,),
                   "a model with an unbalanced reaction was built", rxns=rx, bad=case["bad"])
        mon.count("models rejected")
        mon.show({"rejected": case["bad"], "accepted": good})
