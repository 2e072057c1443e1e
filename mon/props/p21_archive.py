"""P21: archived results equal the run's results and restart from them."""
import os
import pickle
import traceback

from .. import core, gen, ref, steady
from .p17_hybrid import physical_guess

RULE = ("a run whose data file was read back and compared with its results, or a restart from it; "
        "distinct (mechanism, energies, archived variables, scenario)")
MIN = {"runs": 60, "files compared": 40, "values compared": 200, "nothing archived": 4, "restarts": 25, "unusable files": 15,
       "runs with rate control": 8, "several runs": 15, "direct archives": 200, "failed runs": 5}
CASE_TIMEOUT = 15
MAX_SKIP = 0.35
BUDGET = {"quick": 400}
NAMES = ["initial_guess", "steady_state_coverages", "steady_state_error", "rates", "net_rates", "reversibilities", "tofs"]


def cases(rng, tier):
    for i in range(100 if tier == "quick" else 900):
        c = steady.case(rng, random_mechs=0.25)
        k = rng.choice([0, 1, 2, 3, 5, 7, 7, None])
        c["names"] = None if k is None else rng.sample(NAMES, k)
        if c["names"] is not None and rng.random() < 0.3:
            c["names"].insert(rng.randint(0, len(c["names"])), rng.choice(["no such variable", "TOFs", "rate"]))
        if c["names"] is not None and rng.random() < 0.3:
            c["names"] = ["tuple", c["names"]]
        c["coarse"] = rng.random() < 0.4
        c["xrc"] = i % 5 == 0
        c["twice"] = rng.random() < 0.4
        c["fail"] = rng.random() < 0.15
        c["file"] = rng.choice(["short", "long", "missing", "empty", "other"])
        c["guess"] = [float(v) for v in gen.coverages(rng, c["rxns"], c["defs"])]
        c["direct"] = [[rng.choice(NAMES + ["x"]), rng.choice([0.5, [1, 2], "text", None, {"a": [0.1]}])]
                       for _ in range(rng.randint(3, 12))]
        yield c


def requested(c):
    n = c["names"]
    if n is None:
        return None
    return tuple(n[1]) if n and n[0] == "tuple" else list(n)


def load(m):
    if not os.path.exists(m.data_file):
        return None
    with open(m.data_file, "rb") as f:
        return pickle.load(f)


def build(c, names, attempts=3):
    kw = {} if names is None else {"archived_variables": names}
    return steady.build(c, attempts=attempts, tolerance=1e-20, max_rootfinding_iterations=60, **kw)


def solve(fn):
    try:
        return fn()
    except steady.GiveUp:
        raise core.Skip("not converged")
    except ValueError as e:
        if "ZeroDivisionError" in str(e):
            raise core.Skip("singular Jacobian met")
        raise
    except ZeroDivisionError:
        raise core.Skip("a forward rate vanishes")
    except TypeError:
        if "mpmath" in traceback.format_exc().split("File ")[-1]:
            raise core.Skip("diverged iterate")
        raise


def same(a, b):
    if isinstance(a, (list, tuple)) or getattr(a, "shape", None):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def compare(c, m, energies, mon, kw, guesses):
    """The file of the last run against what the model reports."""
    names = requested(c)
    wanted = {"steady_state_coverages"} if names is None else set(names) & set(NAMES)
    data = load(m)
    mon.count("runs")
    if not wanted:
        mon.count("nothing archived")
        mon.equal(data, None, "a file was written though nothing is archived", **kw)
        return None
    if not mon.check(data is not None, "no data file after a run", **kw):
        return None
    mon.equal(sorted(data), sorted(wanted), "archived variables", **kw)
    mon.count("files compared")
    x = tuple(m.steady_state_coverages)
    s = m.solver
    have = {"steady_state_coverages": x, "steady_state_error": m.error, "tofs": list(m.TOFs),
            "reversibilities": list(m.reversibilities)}
    # everything else recomputed in another model of the same system
    twin = twin_model(c)
    rf, rr = twin.solver.get_rates(x, relative_energies=energies)
    have["rates"] = (list(rf), list(rr))
    have["net_rates"] = [a - b for a, b in zip(rf, rr)]
    for name in sorted(wanted & set(data)):
        mon.count("values compared")
        if name == "initial_guess":
            got = [float(v) for v in data[name]]
            if c["coarse"]:
                mon.count("coarse guesses")
            mon.check(any(max(abs(a - b) for a, b in zip(got, g)) < 1e-9 for g in guesses),
                      "the archived initial guess was not the one used", got=got, want=guesses[:2], **kw)
        else:
            mon.check(same(data[name], have[name]), "an archived value differs from the result of the run",
                      variable=name, got=data[name], want=have[name], **kw)
    return data


def first_guess(c, given, energies):
    """What a run starts from: the given coverages, improved at low precision if that was asked for."""
    g = [float(v) for v in given]
    if c["coarse"]:
        g = [float(v) for v in twin_model(c).solver.coarse_steady_state_cvgs(list(g), energies)]
    return [physical_guess(c, g)]


def twin_model(c):
    here = os.getcwd()
    os.makedirs("twin", exist_ok=True)
    os.chdir("twin")
    try:
        return steady.build(c, archived_variables=[])
    finally:
        os.chdir(here)


def direct(c, mon):
    """archive_data itself."""
    os.makedirs("direct", exist_ok=True)
    here = os.getcwd()
    os.chdir("direct")
    try:
        names = requested(c)
        m = build(c, names)
        keep = {"steady_state_coverages"} if names is None else set(names)
        want = {}
        for name, value in c["direct"]:
            m.solver.archive_data(name, value)
            if name in keep:
                want[name] = value
            mon.count("direct archives")
            mon.equal(load(m), want or None, "archived data", given=name)
    finally:
        os.chdir(here)


def run(case, mon):
    c = case
    direct(c, mon)
    m = build(c, requested(c))
    gas = ref.names(c["rxns"])["gas"]
    kw = dict(rxns=c["rxns"], names=c["names"])
    own, other = steady.relative(c["rxns"], c["abs"]), steady.relative(c["rxns"], c["abs2"])
    hybrid = m.hybrid_method
    answers = []

    def watched(model, N):
        g = list(hybrid(model, N))
        answers.append([float(v) for v in physical_guess(c, [float(v) for v in g])])
        return g
    m.hybrid_method_register(watched)
    if c["fail"]:
        failing(c, mon, kw)
    solve(lambda: m.run(init_cvgs=list(c["c0"]), coarse_guess=c["coarse"]))
    guesses = first_guess(c, c["c0"], None) + answers
    mon.nontrivial([c["rxns"], c["abs"], c["names"], c["xrc"], c["twice"]])
    data = compare(c, m, None, mon, kw, guesses)
    if c["xrc"] and gas:
        before = data
        x0 = tuple(m.steady_state_coverages)
        try:
            m.solver.get_single_XRC(gas[-1], epsilon=1e-5)
        except (steady.GiveUp, ZeroDivisionError, ValueError, TypeError):
            pass
        mon.count("runs with rate control")
        now = load(m)
        mon.check((now is None) == (before is None) and (now is None or (sorted(now) == sorted(before) and all(
            same(now[k], before[k]) for k in now))), "rate control changed the archived results", got=now, want=before, **kw)
        mon.check(same(m.steady_state_coverages, x0), "rate control changed the coverages of the model", **kw)
    final = None
    if c["twice"]:
        # another run of the same model with other energies replaces every value
        del answers[:]
        start = tuple(m.steady_state_coverages)
        solve(lambda: m.run(init_cvgs=list(c["guess"]), coarse_guess=c["coarse"], relative_energies=other))
        guesses = first_guess(c, c["guess"], other) + answers
        final = compare(c, m, other, mon, kw, guesses)
        mon.count("several runs")
    restart(c, m, other if c["twice"] else None, mon, kw)
    mon.show({"rxns": c["rxns"], "archived": sorted(data or [])})


def tries(m):
    """Record the coverages at which the kinetics are evaluated."""
    log, f = [], m.solver.steady_state_function

    def watched(cvgs, *a, **k):
        log.append([float(v) for v in cvgs])
        return f(cvgs, *a, **k)
    m.solver.steady_state_function = watched
    return log


def restart(c, m, energies, mon, kw):
    """A new model in the same directory."""
    x = tuple(m.steady_state_coverages)
    data = load(m)
    n = build(c, requested(c))
    calls = []
    old = n.hybrid_method

    def hybrid(model, N):
        calls.append(N)
        return old(model, N)
    n.hybrid_method_register(hybrid)
    if data is not None and "steady_state_coverages" in data:
        log = tries(n)
        solve(lambda: n.run(relative_energies=energies))
        mon.count("restarts")
        mon.check(log and max(abs(a - float(b)) for a, b in zip(log[0], x)) < 1e-12,
                  "a restart did not begin with the archived coverages", got=log[:1], want=[float(v) for v in x], **kw)
        mon.equal(calls, [], "a restart from converged coverages asked the hybrid method", **kw)
        y = n.steady_state_coverages
        mon.check(all(abs(ref.conv(a) - ref.conv(b)) <= ref.mpf(10)**-12 for a, b in zip(x, y)),
                  "a restart gives another steady state", got=[float(v) for v in y], want=[float(v) for v in x], **kw)
        again = load(n)
        mon.check(again is not None and sorted(again) == sorted(data), "the file after a restart", got=again and sorted(again),
                  want=sorted(data), **kw)
    # a file that holds no usable coverages
    if c["file"] == "missing" and data is None:
        return
    bad = {"short": {"steady_state_coverages": list(x)[:-1]}, "long": {"steady_state_coverages": list(x) + [0.0]},
           "missing": {"tofs": [1.0]}, "empty": {}, "other": {"steady_state_coverages": ()}}[c["file"]]
    with open(n.data_file, "wb") as f:
        pickle.dump(bad, f)
    p = build(c, requested(c))
    ode = []

    def solve_ode(*a, **k):
        ode.append((a, dict(k)))
        return [[0.0]*len(x), list(c["guess"])]
    p.solver.solve_ode = solve_ode
    log = tries(p)
    given = []
    p.hybrid_method_register(lambda model, N: given.append(N) or (_ for _ in ()).throw(steady.GiveUp()))
    try:
        p.run(coarse_guess=False, relative_energies=energies)
    except (steady.GiveUp, ValueError, ZeroDivisionError, TypeError):
        pass
    mon.count("unusable files")
    mon.equal(len(ode), 1, "integrations when the file has no usable coverages", file=c["file"], **kw)
    want = physical_guess(c, c["guess"])
    mon.check(log and max(abs(a - b) for a, b in zip(log[0], want)) < 1e-9,
              "the end of the integration was not the initial guess", got=log[:1], want=want, **kw)


def failing(c, mon, kw):
    """A run that never converges archives no steady state."""
    here = os.getcwd()
    os.makedirs("failing", exist_ok=True)
    os.chdir("failing")
    try:
        m = steady.build(c, attempts=0, tolerance=1e-45, max_rootfinding_iterations=0, archived_variables=NAMES)
        try:
            m.run(init_cvgs=list(c["c0"]), coarse_guess=False)
        except (steady.GiveUp, ValueError, ZeroDivisionError, TypeError):
            data = load(m) or {}
            mon.check("steady_state_coverages" not in data and "steady_state_error" not in data and "tofs" not in data,
                      "a failed run archived a steady state", got=sorted(data), **kw)
            mon.count("failed runs")
    finally:
        os.chdir(here)
