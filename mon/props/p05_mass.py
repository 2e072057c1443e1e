"""P05: molecular masses are the sums of the element masses."""
import json
import os
import re

from .. import core

RULE = "a formula whose mass was compared with the sum over its atoms"
MIN = {"masses": 500, "with brackets": 40, "unknown elements": 20}
ASSUMPTIONS = ["standard atomic weights of the elements of the database are pinned in "
               "mon/data/literature.json"]
AMU = 1.66053904e-27


def lit():
    with open(os.path.join(core.HERE, "data", "literature.json")) as f:
        return json.load(f)["mass"]


def rand(rng, elems, depth=0):
    """(text, {element: n})"""
    text, comp = "", {}
    for _ in range(rng.randint(1, 4)):
        k = rng.choice([1, 1, 1, 1, 2, 3, 4, 10, 13, rng.choice([60, 99, 100, 250])])
        if depth < 2 and rng.random() < 0.12:
            t, c = rand(rng, elems, depth + 1)
            text += "(" + t + ")"
        else:
            e = rng.choice(elems)
            text += e
            c = {e: 1}
        if k > 1:
            text += str(k)
        for e, n in c.items():
            comp[e] = comp.get(e, 0) + n*k
    return text, comp


def cases(rng, tier):
    elems = sorted(lit())
    for _ in range(40 if tier == "quick" else 400):
        fs = []
        while len(fs) < 25:
            f = rand(rng, elems)
            if sum(f[1].values()) < 20000:
                fs.append(f)
        bad = []
        for _ in range(2):
            t, _c = rand(rng, elems, 9)
            bad.append(t + rng.choice(["Xx", "Pt", "Zz2", "Q"]))
        yield {"formulas": fs, "bad": bad}


def run(case, mon):
    from scaks.parsers.parser_base import ParserBase
    from scaks.errors.error import ElementSearchingError
    table = lit()
    get = ParserBase.get_molecular_mass
    for text, comp in case["formulas"]:
        want = sum(table[e]*n for e, n in comp.items())
        mon.count("masses")
        mon.nontrivial(text)
        if "(" in text:
            mon.count("with brackets")
        mon.close(get(text), want, "relative molecular mass", rtol=1e-10, formula=text)
        mon.close(get(text, absolute=True), want*AMU, "absolute molecular mass", rtol=1e-10,
                  formula=text)
        # additivity under concatenation and repetition
        other = case["formulas"][0][0]
        mon.close(get(text + other), want + get(other), "mass is not additive", rtol=1e-10,
                  a=text, b=other) if not re.match(r"^\d", other) else None
        mon.show({"formula": text, "mass": get(text), "want": want})
    for b in case["bad"]:
        mon.raises(lambda: get(b), (ElementSearchingError,), "a mass for an unknown element",
                   formula=b)
        mon.count("unknown elements")
