"""P22: analysis plugins see every iteration of every attempt exactly once."""
from .. import core, ref, steady, util
from .p17_hybrid import physical_guess
from .. import gen

RULE = ("one observed search: the sequence of plugin calls against the iterations of each attempt; "
        "distinct (mechanism, energies, plugins, scenario)")
MIN = {"searches": 60, "attempts": 120, "steps seen": 300, "failed attempts": 60, "attempts ended by an error": 10,
       "searches ended by an error": 8, "converged searches": 30, "inherited hooks": 40, "iterations without a plugin due": 100,
       "same solution without plugins": 20, "classes registered twice": 10, "wrong analysis classes": 300}
CASE_TIMEOUT = 90
MAX_SKIP = 0.35


class Fatal(Exception):
    pass


def cases(rng, tier):
    for i in range(110 if tier == "quick" else 900):
        c = steady.case(rng, random_mechs=0.2)
        c["max"] = rng.choice([0, 1, 2, 3, 5, 100])
        c["fail"] = rng.randint(0, 4)
        c["root"] = rng.choice(["MDNewton", "MDNewton", "MDNewton", "ConstrainedNewton"])
        c["singular"] = sorted(rng.sample(range(1, 12), rng.choice([0, 0, 1, 2])))
        c["fatal"] = rng.choice([None, None, None, rng.randint(1, 8)])
        c["where"] = rng.choice(["jacobian", "hybrid"])
        c["nohybrid"] = rng.random() < 0.08
        c["run"] = rng.random() < 0.4
        c["twice"] = rng.random() < 0.3
        c["offset"] = rng.choice([1e-3, 1e-6, 1e-2])
        c["plugins"] = [{"interval": rng.choice([1, 1, 2, 3, 5, 7, None]),
                         "shape": rng.choice(["plain", "inherited", "override", "mixin", "grandchild", "partial", "empty"]),
                         "missing": rng.choice(["setup", "register_step", "finalize"])}
                        for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        c["guesses"] = [[float(v) for v in gen.coverages(rng, c["rxns"], c["defs"])] for _ in range(6)]
        yield c


def make_plugin(spec, k, log):
    """(class, hooks it must run, interval) of one user-written analysis."""
    from scaks.plugins.analysis import OnTheFlyAnalysis

    def note(kind, who):
        if kind == "setup":
            def setup(self, model, outer_counter):
                log.append((kind, k, who, model, None, outer_counter, tuple(model.solver.coverages or ()), self))
            return setup
        if kind == "register_step":
            def register_step(self, model, inner_counter, outer_counter):
                log.append((kind, k, who, model, inner_counter, outer_counter, tuple(model.solver.coverages), self))
            return register_step

        def finalize(self, model, outer_counter):
            log.append((kind, k, who, model, None, outer_counter, tuple(model.solver.coverages or ()), self))
        return finalize
    names = ["setup", "register_step", "finalize"]
    base = {n: note(n, "base") for n in names}
    attrs = dict(base)
    if spec["interval"] is not None:
        attrs["interval"] = spec["interval"]
    interval = spec["interval"] or 1
    shape = spec["shape"]
    want = {n: "base" for n in names}
    A = OnTheFlyAnalysis
    if shape == "plain":
        cls = type(A)("Plain", (A,), attrs)
    elif shape == "inherited":
        cls = type(A)("Child", (type(A)("Parent", (A,), attrs),), {})
    elif shape == "override":
        cls = type(A)("Child", (type(A)("Parent", (A,), attrs),), {spec["missing"]: note(spec["missing"], "child")})
        want[spec["missing"]] = "child"
    elif shape == "grandchild":
        parent = type(A)("Parent", (A,), dict(attrs, interval=13))
        mid = type(A)("Mid", (parent,), {"interval": interval, "setup": note("setup", "mid")})
        cls = type(A)("Grandchild", (mid,), {"finalize": note("finalize", "grandchild")})
        want.update(setup="mid", finalize="grandchild")
    elif shape == "mixin":
        left = type(A)("Left", (A,), attrs)
        right = type(A)("Right", (A,), {n: note(n, "right") for n in names})
        cls = type(A)("Both", (left, right), {})
    elif shape == "partial":
        del attrs[spec["missing"]]
        cls = type(A)("Partial", (A,), attrs)
        want[spec["missing"]] = None
    else:
        cls = type(A)("Empty", (A,), {"interval": interval})
        want = {n: None for n in names}
    return cls, want, interval


def classes(c, mon):
    """Classes that are refused."""
    from scaks.plugins.analysis import OnTheFlyAnalysis as A
    for bad in (0, -1, 1.0, "1", None, True, [1], -5):
        mon.raises(lambda: type(A)("Bad", (A,), {"interval": bad}), TypeError, "a wrong analysis interval was accepted",
                   value=repr(bad))
    for name in ("setup", "register_step", "finalize"):
        mon.raises(lambda: type(A)("Bad", (A,), {name: 3}), (AttributeError, TypeError), "a hook that can not be called")
    m = steady.build(c)
    before = list(m.analysis)
    for bad in (int, object, steady.GiveUp):
        mon.raises(lambda: m.analysis_register(bad), TypeError, "a class that is no analysis was registered")
    mon.equal(list(m.analysis), before, "a refused analysis was registered")
    mon.count("wrong analysis classes", 14)


def search(c, root, log, plugins):
    """Run the search; returns (model, coverages or None, error or None)."""
    m = steady.build(c, rootfinding=c["root"], tolerance=1e-12, max_rootfinding_iterations=c["max"])
    s = m.solver
    import mpmath
    exact = [mpmath.mpf(ref.ctx.nstr(v, 60)) for v in root]

    def hybrid(model, N):
        log.append(("hybrid", None, None, model, None, N, (), None))
        if c["where"] == "hybrid" and c["fatal"] is not None and N == min(c["fatal"], 4):
            raise Fatal("hybrid")
        if N >= c["fail"] + 2:
            return list(exact)
        if N >= c["fail"]:
            return [v*(1 - c["offset"]*(1 + k % 3)) for k, v in enumerate(exact)]
        return list(c["guesses"][N % len(c["guesses"])])
    if c["nohybrid"]:
        m.hybrid_method = None
    else:
        m.hybrid_method_register(hybrid)
    jac, count = s.analytical_jacobian, [0]

    def watched(cvgs, *a, **k):
        count[0] += 1
        log.append(("jacobian", None, None, None, None, None, tuple(cvgs), None))
        if c["where"] == "jacobian" and count[0] == c["fatal"]:
            raise Fatal("jacobian")
        if count[0] in c["singular"]:
            raise ZeroDivisionError("singular")
        return jac(cvgs, *a, **k)
    s.analytical_jacobian = watched
    for cls in plugins:
        m.analysis_register(cls)
    if c["twice"] and plugins:
        m.analysis_register(plugins[0])
    guess = tuple(c["guesses"][0])
    try:
        if c["run"] and not c["nohybrid"]:
            m.run(init_cvgs=guess, coarse_guess=False)
            x = m.steady_state_coverages
        else:
            x = s.get_steady_state_cvgs(c0=guess)
        return m, x, None
    except (Fatal, ValueError) as e:
        if not isinstance(e, Fatal) and "ZeroDivision" not in str(e):
            raise
        return m, None, e


def run(case, mon):
    c = case
    classes(c, mon)
    K = steady.kinetics(c)
    root = None
    for g in [c["c0"]] + c["guesses"]:
        try:
            x = steady.newton(K, physical_guess(c, g), steps=80)
        except core.Skip:
            continue
        if all(v >= 0 for v in K.activities(x).values()):
            root = x
            break
    if root is None:
        raise core.Skip("no physical reference root")
    log = []
    made = [make_plugin(p, k, log) for k, p in enumerate(c["plugins"])]
    m, x, error = search(c, root, log, [p[0] for p in made])
    mon.count("searches")
    mon.nontrivial([c["rxns"], c["abs"], c["plugins"], c["max"], c["fail"], c["singular"], c["fatal"]])
    kw = dict(rxns=c["rxns"], plugins=c["plugins"], max=c["max"])
    if x is not None:
        mon.count("converged searches")
    if error is not None:
        mon.count("searches ended by an error")
    for p in c["plugins"]:
        if p["shape"] in ("inherited", "override", "mixin", "grandchild"):
            mon.count("inherited hooks")
    # every call got this model and its own analysis object
    objs = list(m.analysis)
    mon.equal(len(objs), len(made) + bool(c["twice"]), "number of analyses registered", **kw)
    if c["twice"] and len(objs) > len(made):
        # a class registered twice analyses twice, each with an object of its own
        again, log = [r for r in log if r[7] is objs[-1]], [r for r in log if r[7] is not objs[-1]]
        mon.equal([(r[0],) + r[4:7] for r in again], [(r[0],) + r[4:7] for r in log if r[1] == 0],
                  "calls of an analysis registered twice", **kw)
        mon.count("classes registered twice")
    for r in log:
        if r[1] is not None:
            mon.check(r[3] is m, "an analysis got another model", call=r[:3], **kw)
            mon.check(r[7] is objs[r[1]], "a hook ran on another analysis object", call=r[:3], **kw)
            mon.equal(r[2], made[r[1]][1][r[0]], "which definition of a hook ran", hook=r[0], **kw)
    # what each analysis saw
    for k, (_cls, want, interval) in enumerate(made):
        mine = [r for r in log if r[1] == k or r[0] in ("jacobian", "hybrid")]
        own = [r for r in mine if r[1] == k]
        if not any(want.values()):
            mon.equal(own, [], "an analysis without hooks was called", **kw)
            continue
        check_calls(c, mon, k, want, interval, mine, kw)
    # all analyses saw the same attempts
    for kind in ("setup", "finalize"):
        seen = {k: [r[5] for r in log if r[0] == kind and r[1] == k] for k, p in enumerate(made) if p[1][kind]}
        mon.check(len({tuple(v) for v in seen.values()}) <= 1, "analyses saw different attempts", got=seen, **kw)
    # nothing but the analyses differs from a search without them
    if mon.counters["assertions"] % 2 or len(made) > 1:
        log2 = []
        _m2, y, e2 = search(c, root, log2, [])
        mon.equal(None if y is None else list(y), None if x is None else list(x), "analyses changed the solution", **kw)
        mon.equal(type(e2), type(error), "analyses changed the outcome", **kw)
        mon.equal([(r[0], r[5], r[6]) for r in log2], [(r[0], r[5], r[6]) for r in log if r[1] is None],
                  "analyses changed the search", **kw)
        mon.count("same solution without plugins")
    mon.show({"rxns": c["rxns"], "plugins": c["plugins"],
              "calls": [(r[0], r[4], r[5]) for r in log if r[1] == 0][:12]})


def check_calls(c, mon, k, want, interval, mine, kw):
    """One analysis against the iterations: setup, steps and finalize of every attempt."""
    attempts, current, stray = [], None, []
    # split at setup if it is observable, at the hybrid calls otherwise
    if not want["setup"]:
        by_final = [r for r in mine if r[0] == "register_step"]
        for r in by_final:
            mon.equal(r[4] % interval, 0, "a step that is no multiple of the interval", **kw)
        return
    for r in mine:
        if r[0] == "setup":
            if current is not None:
                attempts.append(current)
            current = {"N": r[5], "jac": [], "steps": [], "final": []}
        elif r[0] == "hybrid":
            if current is not None:
                current["closed"] = True
        elif current is None or (r[0] == "jacobian" and current.get("closed")):
            stray.append(r)
        elif r[0] == "jacobian":
            current["jac"].append(r[6])
        elif r[0] == "register_step":
            current["steps"].append(r)
            mon.check(not current["final"], "a step after finalize", **kw)
        elif r[0] == "finalize":
            current["final"].append(r[5])
    if current is not None:
        attempts.append(current)
    mon.equal([(r[0], r[4], r[5]) for r in stray], [], "calls or iterations outside of an attempt", **kw)
    numbers = [a["N"] for a in attempts]
    mon.equal(numbers, sorted(set(numbers)), "attempt numbers", **kw)
    mon.count("attempts", len(attempts))
    if attempts:
        mon.equal(numbers, list(range(1, len(attempts) + 1)), "attempt numbers", **kw)
    for a in attempts:
        if want["finalize"]:
            mon.equal(a["final"], [a["N"]], "finalize calls of an attempt", **kw)
        if not want["register_step"]:
            continue
        n = len(a["jac"])
        done = n - 1
        steps = [r[4] for r in a["steps"]]
        last = a["steps"][-1] if a["steps"] else None
        if steps and steps[-1] == n and n >= 1:
            # the iteration had become stationary
            prev = a["jac"][-1]
            mon.check(tuple(last[6]) == tuple(prev), "a step beyond the iterations of the attempt", N=a["N"], **kw)
            done = n
        expect = [i for i in range(1, done + 1) if i % interval == 0]
        mon.equal(steps, expect, "the iterations seen in an attempt", N=a["N"], interval=interval, iterations=n, **kw)
        mon.count("steps seen", len(steps))
        mon.count("iterations without a plugin due", max(0, done - len(steps)))
        for r in a["steps"]:
            mon.equal(r[5], a["N"], "the attempt number of a step", **kw)
            if r[4] < n:
                x = a["jac"][r[4]]
                mon.check(len(x) == len(r[6]) and all(p == q for p, q in zip(x, r[6])),
                          "the coverages seen in a step are not those of the iteration", step=r[4], N=a["N"], **kw)
    mon.count("failed attempts", max(0, len(attempts) - 1))
    if c["singular"] and attempts:
        mon.count("attempts ended by an error")
