"""P32: energy profiles draw each reaction's states at its own energies."""
import os

from .. import gen, ref, util

RULE = ("a figure drawn for a reaction whose curve was read back from the figure when it was saved; distinct "
        "(reaction, energies, options)")
MIN = {"figures": 200, "with barrier": 100, "without barrier": 20, "options": 40, "repeated drawing": 20,
       "absolute energies": 14, "shadows": 20, "long names": 8}
CASE_TIMEOUT = 120


def cases(rng, tier):
    for k in range(80 if tier == "quick" else 1200):
        rx, d = gen.mechanism(rng, overlap=0.0, repeat=0.1, n=rng.randint(1, 5), nelem=rng.choice([1, 2]),
                              nads=rng.randint(2, 4), ngas=2, multi=0.2)
        if rng.random() < 0.2:
            long(rx, rng)
        e = gen.relative_energies(rng, len(rx), -1.5, 2.0)
        for i in range(len(rx)):
            if rng.random() < 0.15:       # no barrier at all
                e["Gaf"][i] = rng.choice([0.0, 0.0, 4e-6])
                e["dG"][i] = -abs(e["dG"][i]) - 0.01
            elif rng.random() < 0.1:
                e["Gaf"][i], e["dG"][i] = 2e-3, -0.5
        kw = {}
        if rng.random() < 0.6:
            kw = {k: v for k, v in dict(n=rng.choice([30, 50, 77]), hline_length=rng.choice([0.5, 2.0]),
                                        peak_width=rng.choice([0.7, 1.5]), interp_method=rng.choice(["spline", "quadratic"]),
                                        line_width=rng.choice([1, 2.5]), color=rng.choice(["#A52A2A", "#000080"]),
                                        shadow_color="#595959", shadow_depth=rng.choice([0, 2, 4])).items()
                  if rng.random() < 0.6}
        yield {"rxns": rx, "defs": d, "e": e, "abs": gen.absolute_energies(rng, rx) if rng.random() < 0.3 else None,
               "kw": kw, "twice": rng.random() < 0.4, "dir": rng.random() < 0.3}


def long(rx, rng):
    """Write one reaction so that the name of its figure is long."""
    i = rng.randrange(len(rx))
    st = ref.parse_rxn(rx[i])
    for k in range(1, 40):
        new = " -> ".join(" + ".join(f["key"] for f in s for _ in range(f["stoich"]*k)) for s in (st[0], st[-1]))
        if len(new) > 200:
            break
        rx[i] = new


def start():
    import matplotlib
    matplotlib.use("Agg")


def profile(Gaf, dG):
    """The levels of a profile: a peak where the barrier exceeds both ends."""
    return [0.0, dG] if abs(Gaf - max(0.0, dG)) < 1e-5 else [0.0, Gaf, dG]


def run(case, mon):
    import numpy as np
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    from catplot.ep_components.ep_lines import ElementaryLine
    plotter = {"plotter": "EnergyProfilePlotter"}
    if case["abs"] is not None:
        m = util.mkm(case["rxns"], case["defs"], parser="AbsoluteEnergyParser", **plotter)
        util.with_absolute(m, case["abs"])
        mon.count("absolute energies")
    else:
        m = util.mkm(case["rxns"], case["defs"], **plotter)
        util.with_relative(m, case["e"])
    Gaf, dG = [float(x) for x in m.relative_energies["Gaf"]], [float(x) for x in m.relative_energies["dG"]]
    before = repr(m.relative_energies)
    try:        # what the plotting library itself cannot draw is not this code's business
        for levels in map(profile, Gaf, dG):
            ElementaryLine(levels, **case["kw"])
    except (ValueError, ZeroDivisionError):
        case["kw"].pop("interp_method", None)
    if case["dir"]:
        os.mkdir("energy_profile")
    saved, built = [], []
    real, init = Figure.savefig, ElementaryLine.__init__

    def savefig(self, name, *a, **k):
        curves = [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float), l.get_linewidth(),
                   l.get_color(), l.get_alpha()) for ax in self.axes for l in ax.get_lines()]
        saved.append((str(name), curves, [(ax.get_xlim(), ax.get_ylim()) for ax in self.axes]))
        k.setdefault("dpi", 30)
        return real(self, name, *a, **k)

    def line(self, energies, *a, **k):
        built.append(dict(k, energies=[float(x) for x in energies]))
        return init(self, energies, *a, **k)
    Figure.savefig, ElementaryLine.__init__ = savefig, line
    try:
        for again in range(2 if case["twice"] else 1):
            m.plotter.plot_all(**dict(case["kw"]))
            plt.close("all")
            mon.count("repeated drawing", again)
    finally:
        Figure.savefig, ElementaryLine.__init__ = real, init
    n = len(case["rxns"])
    mon.equal([s[0] for s in saved], ["energy_profile/{}_{}.png".format(i, r) for i, r in enumerate(case["rxns"])]*
              (2 if case["twice"] else 1), "figures saved")
    mon.equal(sorted(os.listdir("energy_profile")), sorted("{}_{}.png".format(i, r) for i, r in enumerate(case["rxns"])),
              "files saved")
    for b, r in zip(built, case["rxns"]*(2 if case["twice"] else 1)):
        mon.check(b.get("rxn_equation") in (r, None), "reaction of a figure", got=b.get("rxn_equation"), want=r)
    mon.equal(repr(m.relative_energies), before, "drawing changed the energies of the model")
    mon.count("options", bool(case["kw"]))
    for k, (name, curves, limits) in enumerate(saved):
        i = k % n
        levels = profile(Gaf[i], dG[i])
        where = dict(reaction=case["rxns"][i], levels=levels)
        mon.count("figures")
        mon.count("long names", len(name) > 130)
        mon.count("with barrier" if len(levels) == 3 else "without barrier")
        mon.nontrivial([case["rxns"][i], levels, case["kw"]])
        want = ElementaryLine(levels, **case["kw"])
        wx, wy = np.array(want.x, dtype=float), np.array(want.y, dtype=float)
        shadows = case["kw"].get("shadow_depth", 0)
        mon.count("shadows", shadows > 0)
        if not mon.equal(len(curves), 1 + shadows, "curves in a figure", **where):
            continue
        for x, y, *_ in curves:
            mon.check(x.shape == wx.shape and np.allclose(x, wx, rtol=0, atol=1e-9) and
                      np.allclose(y, wy, rtol=0, atol=1e-9), "the curve of a figure",
                      got=[float(y[0]), float(y.max()), float(y[-1])], want=[0.0, float(wy.max()), levels[-1]], **where)
        x, y, width, color, alpha = [c for c in curves if c[4] is None][-1]
        mon.close(float(y[0]), 0.0, "start of a profile", atol=1e-9, **where)
        mon.close(float(y[-1]), levels[-1], "end of a profile", atol=1e-9, **where)
        if len(levels) == 3:
            mon.check(float(y.max()) >= levels[1] - 0.02*(1 + abs(levels[1])), "the profile stays below its barrier",
                      top=float(y.max()), **where)
        mon.equal([width, color], [case["kw"].get("line_width", 3), case["kw"].get("color", "#000000")],
                  "width and colour of a curve", **where)
        (lo, hi), (bottom, top) = limits[0]
        mon.check(lo <= x.min() and hi >= x.max() and bottom <= y.min() and top >= y.max(),
                  "the curve leaves the figure", **where)
    mon.show({"reactions": n, "energies": [Gaf, dG], "options": case["kw"]})
