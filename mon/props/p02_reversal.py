"""P02: reversing a reaction, its gases, and its LaTeX form."""
import re

from .. import gen, ref

RULE = "a reaction whose reverse and rendering were compared with its own states"
MIN = {"reactions": 300, "with transition state": 60, "with gas": 100}


def cases(rng, tier):
    for _ in range(80 if tier == "quick" else 800):
        rx, _d = gen.mechanism(rng, overlap=0.2, repeat=0.2, n=8, ts=0.5, **gen.random_pool_args(rng))
        yield {"rxns": rx}


def key(states):
    return [[(f["stoich"], f["key"]) for f in st] for st in states]


def got_key(eq):
    return [[(f.stoichiometry(), f.species_site()) for f in st] for st in eq.to_formula_list()]


def tex_terms(tex):
    """[[(coefficient, element counts, site)]] of a rendered reaction."""
    out = []
    for st in re.split(r"\\leftrightarrow|\\rightarrow", tex):
        terms = []
        for t in st.split(" + "):
            t = t.strip()
            m = re.match(r"^(\d*)(.*)\((\w+)\)$", t)
            body = m.group(2)
            elems = {}
            if body != "*":
                for e, n in re.findall(r"([A-Z][a-z]?)(?:_\{(\d+)\})?", body):
                    elems[e] = elems.get(e, 0) + (int(n) if n else 1)
            terms.append((int(m.group(1) or 1), sorted(elems.items()), m.group(3), "-" in body))
        out.append(terms)
    return out


def run(case, mon):
    from scaks.parsers.rxn_parser import RxnEquation
    for r in case["rxns"]:
        states = ref.parse_rxn(r)
        eq = RxnEquation(r)
        rev = eq.revert()
        mon.count("reactions")
        mon.nontrivial(r)
        mon.equal(got_key(rev), key(states[::-1]), "the reverse reaction has other states", rxn=r)
        mon.equal(key(ref.parse_rxn(rev.rxn_equation())), key(states[::-1]),
                  "the expression of the reverse reaction has other states", rxn=r)
        back = rev.revert()
        mon.equal(got_key(back), key(states), "reverting twice changed the reaction", rxn=r)
        mon.equal(got_key(eq), key(states), "reverting changed the original", rxn=r)
        mon.equal(rev.check_conservation(), True, "the reverse reaction is not balanced", rxn=r)
        if len(states) == 3:
            mon.count("with transition state")

        def gases(fs):
            return [(f.stoichiometry(), f.species_site()) for f in fs]
        g0 = [(f["stoich"], f["key"]) for f in states[0] if f["kind"] == "gas"]
        g1 = [(f["stoich"], f["key"]) for f in states[-1] if f["kind"] == "gas"]
        if g0 or g1:
            mon.count("with gas")
        mon.equal(gases(eq.adsorption_gases()), g0, "adsorption gases", rxn=r)
        mon.equal(gases(eq.desorption_gases()), g1, "desorption gases", rxn=r)
        mon.equal(gases(rev.adsorption_gases()), g1, "adsorption gases of the reverse", rxn=r)
        mon.equal(gases(rev.desorption_gases()), g0, "desorption gases of the reverse", rxn=r)
        want = [[(f["stoich"], sorted(f["elements"].items()), f["site"], f["kind"] == "ts")
                 for f in st] for st in states]
        tex = eq.texen()
        mon.equal(tex_terms(tex), want, "the LaTeX form has other states", rxn=r, tex=tex)
        mon.show({"reaction": r, "reverse": rev.rxn_equation(), "tex": tex})
