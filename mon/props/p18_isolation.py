"""P18: models do not influence one another; results do not depend on history."""
import copy
import json
import os
import pickle
import signal
import sys
import time

from .. import core, gen, ref, steady, util

RULE = ("a query answered inside a random interleaving of several models and compared with the same query in a "
        "fresh process holding one model; distinct (mechanisms, interleaving, query)")
MIN = {"interleavings": 15, "queries compared": 400, "repeated queries": 60, "history-free queries": 100,
       "shared setup": 2, "solves": 20, "mixed precision": 2, "data changes": 15, "kinds": 200}
KEY = "global-decimal-precision"
CASE_TIMEOUT = 110
MAX_SKIP = 0.15
BUDGET = {"quick": 400}
ASSUMPTIONS = ["each model works in its own directory", "a fresh forked process stands for a world without other models"]

PURE = ["rate_constants", "rate_constants2", "rates", "rates2", "net", "net2", "dtheta", "dtheta2", "jacobian", "jacobian2",
        "residual", "tof", "tof2", "boltzmann", "names", "stoich", "total", "kTST", "kCT", "mass", "relative", "absolute", "defs",
        "rate_expressions", "dtheta_expressions", "rates_sym", "jacobian_sym", "shomate", "entropy", "config", "texen"]


def cases(rng, tier):
    for i in range(28 if tier == "quick" else 220):
        mixed = rng.random() < 0.18
        n = rng.randint(2, 4)
        models = []
        for k in range(n):
            if k and rng.random() < 0.35:
                spec = json.loads(json.dumps(rng.choice(models)))
                spec["twin"] = True
            else:
                spec = steady.case(rng, random_mechs=0.3, prec=50)
                spec["kind"] = rng.choice(["AbsoluteEnergyParser", "RelativeEnergyParser"])
                spec["algo"] = rng.choice(["TST", "TST", "TST", "CT"])
                spec["share"] = k
            if mixed:
                spec["prec"] = rng.choice([30, 50, 100])
            spec["ops"] = ops(rng, spec, mixed)
            models.append(spec)
        for spec in models:    # twins built from one and the same setup object
            if spec.get("twin") and rng.random() < 0.6 and not mixed:
                spec["same_object"] = True
        for spec in models:    # energies that only a comparison of the values themselves tells apart
            i = spec["collide"] = rng.randrange(len(spec["rxns"]))
            where = sorted(rng.randint(1, len(spec["ops"])) for _ in "ab")
            for k, n in enumerate(rng.sample([0, 1], 2)):
                spec["ops"].insert(where[k] + k, ["collide", gen.coverages(rng, spec["rxns"], spec["defs"]), rng.random(), n])
        order = []
        left = {k: len(s["ops"]) + 1 for k, s in enumerate(models)}
        while any(left.values()):
            k = rng.choice([q for q in left if left[q]])
            left[k] -= 1
            order.append([k, rng.random() < 0.2])
        yield {"models": models, "order": order, "mixed": mixed,
               "free": [[k, rng.randrange(len(s["ops"]))] for k, s in enumerate(models) for _ in range(5)] +
                       [[k, [o[0] for o in s["ops"]].index("collide", [o[0] for o in s["ops"]].index("collide") + 1)]
                        for k, s in enumerate(models)]}


def ops(rng, spec, mixed):
    out = [["parse", 0]]
    for _ in range(rng.randint(10, 18)):
        u = rng.random()
        c = gen.coverages(rng, spec["rxns"], spec["defs"])
        if u < 0.78:
            name = rng.choice(PURE)
            if name.endswith("_sym") and rng.random() < 0.5:
                name = "rates"
            out.append([name, c, round(rng.uniform(300, 900), 1), rng.randrange(99)])
        elif u < 0.83:
            out.append(["parse", rng.randrange(2)])
        elif u < 0.87:
            out.append(["correct", rng.choice(["shomate", "entropy"])])
        elif mixed:
            out.append(["rates", c, 500.0, 0])
        elif u < 0.93:
            out.append(["solve", c, 0, rng.randrange(99)])
        elif u < 0.95:
            out.append(["xrc", c, 0, rng.randrange(99)])
        elif u < 0.97:
            out.append(["register", c, 0, 0])
        else:
            out.append(["state", c, 0, 0])
    return out


MUTATORS = ("parse", "correct")
STATEFUL = ("solve", "xrc", "register", "state", "parse", "correct")


# -- executed in forked processes ---------------------------------------------
def canon(v):
    """A comparable form: numbers become ['#', digits]."""
    import numpy as np
    if isinstance(v, (str, bool)) or v is None:
        return v
    if isinstance(v, dict):
        return [[canon(k), canon(v[k])] for k in sorted(v, key=str)]
    if isinstance(v, (list, tuple, set, frozenset)):
        v = sorted(v, key=str) if isinstance(v, (set, frozenset)) else v
        return [canon(x) for x in v]
    if isinstance(v, np.ndarray):
        return canon(v.tolist())
    if hasattr(v, "rows") and hasattr(v, "tolist"):
        return canon(v.tolist())
    if isinstance(v, (int, float)):
        return ["#", repr(float(v))]
    try:
        return ["#", ref.ctx.nstr(ref.conv(v), 45)]
    except Exception:
        return str(v)


class World(object):
    def __init__(self, case, root):
        self.case, self.root, self.models, self.setups = case, root, {}, {}

    def build(self, k):
        spec = self.case["models"][k]
        d = os.path.join(self.root, "m{}".format(k))
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        key = spec["share"] if spec.get("same_object") else ("own", k)
        if key not in self.setups:
            s = dict(rxn_expressions=list(spec["rxns"]), species_definitions=copy.deepcopy(spec["defs"]),
                     temperature=spec["T"], parser=spec["kind"], solver="SteadyStateSolver",
                     corrector="ThermodynamicCorrector", decimal_precision=spec["prec"],
                     rate_algo=spec["algo"], unitcell_area=9.0e-20, active_ratio=0.5, tolerance=1e-10,
                     max_rootfinding_iterations=40,
                     archived_variables=["steady_state_coverages", "steady_state_error", "initial_guess"])
            self.setups[key] = (s, copy.deepcopy(s))
            if not spec.get("twin"):
                self.setups[spec["share"]] = self.setups[key]
        from scaks.models.micro_kinetic_model import MicroKineticModel
        m = MicroKineticModel(setup_dict=self.setups[key][0], logger_level=50, file_handler_level=50,
                              console_handler_level=50)
        util.close_logs(m)
        m.solver.get_data()
        steady.bounded(m, 0)
        self.models[k] = m

    def do(self, k, op):
        d = os.path.join(self.root, "m{}".format(k))
        os.chdir(d)
        m, spec, name = self.models[k], self.case["models"][k], op[0]
        try:
            return canon(getattr(self, "op_" + name)(m, m.solver, spec, op))
        except steady.GiveUp:
            return "gave up"
        except Exception as e:
            return "error {}: {}".format(type(e).__name__, str(e)[:80])

    # data changes
    def op_parse(self, m, s, spec, op):
        a = spec["abs"] if op[1] == 0 else spec["abs2"]
        if spec["kind"] == "AbsoluteEnergyParser":
            util.with_absolute(m, a)
        else:
            util.with_relative(m, steady.relative(spec["rxns"], a))

    def op_correct(self, m, s, spec, op):
        return m.corrector.correct_relative_energies(m.relative_energies, method=op[1])

    def e2(self, spec):
        return steady.relative(spec["rxns"], spec["abs2"])

    # queries
    def op_rate_constants(self, m, s, spec, op):
        return s.get_rate_constants()

    def op_rate_constants2(self, m, s, spec, op):
        return s.get_rate_constants(relative_energies=self.e2(spec))

    def op_collide(self, m, s, spec, op):
        e = self.e2(spec)
        e["Gaf"][spec["collide"]] = [-1.0, -2.0][op[3]]     # hash(-1.0) == hash(-2.0)
        return [s.get_rate_constants(relative_energies=e), s.get_rates(cvgs_tuple=tuple(op[1]), relative_energies=e)]

    def op_rates(self, m, s, spec, op):
        return s.get_rates(cvgs_tuple=tuple(op[1]))

    def op_rates2(self, m, s, spec, op):
        return s.get_rates(cvgs_tuple=tuple(op[1]), relative_energies=self.e2(spec))

    def op_net(self, m, s, spec, op):
        return s.get_net_rates(tuple(op[1]))

    def op_net2(self, m, s, spec, op):
        return s.get_net_rates(tuple(op[1]), relative_energies=self.e2(spec))

    def op_dtheta(self, m, s, spec, op):
        return s.steady_state_function(tuple(op[1]))

    def op_dtheta2(self, m, s, spec, op):
        return s.steady_state_function(tuple(op[1]), relative_energies=self.e2(spec))

    def op_jacobian(self, m, s, spec, op):
        return s.analytical_jacobian(tuple(op[1]))

    def op_jacobian2(self, m, s, spec, op):
        return s.analytical_jacobian(tuple(op[1]), relative_energies=self.e2(spec))

    def op_residual(self, m, s, spec, op):
        return s.get_residual(tuple(op[1]))

    def op_tof(self, m, s, spec, op):
        return s.get_tof(tuple(op[1]))

    def op_tof2(self, m, s, spec, op):
        return s.get_tof(tuple(op[1]), relative_energies=self.e2(spec))

    def op_boltzmann(self, m, s, spec, op):
        return s.boltzmann_coverages()

    def op_names(self, m, s, spec, op):
        return [m.adsorbate_names, m.gas_names, m.liquid_names, m.site_names, m.transition_state_names,
                m.rxn_expressions]

    def op_stoich(self, m, s, spec, op):
        return m.parser.get_stoichiometry_matrices()

    def op_total(self, m, s, spec, op):
        return m.parser.get_total_rxn_equation()

    def op_kTST(self, m, s, spec, op):
        return s.get_kTST(0.7, op[2])

    def op_kCT(self, m, s, spec, op):
        return s.get_kCT(0.1, 9e-20, 0.5, 4e-26, op[2])

    def op_mass(self, m, s, spec, op):
        g = ref.names(spec["rxns"])["gas"]
        return m.parser.get_molecular_mass(ref.parse_formula(g[op[3] % len(g)])["species"] if g else "CO", absolute=True)

    def op_relative(self, m, s, spec, op):
        return m.relative_energies

    def op_absolute(self, m, s, spec, op):
        return [m.has_absolute_energy, m.absolute_energies if m.has_absolute_energy else None]

    def op_defs(self, m, s, spec, op):
        return m.species_definitions

    def op_rate_expressions(self, m, s, spec, op):
        return s.get_rate_expressions()

    def op_dtheta_expressions(self, m, s, spec, op):
        return s.get_dtheta_dt_expressions()

    def op_rates_sym(self, m, s, spec, op):
        s.get_data_symbols()
        return s.get_rates_by_sym(tuple(op[1]))

    def op_jacobian_sym(self, m, s, spec, op):
        s.get_data_symbols()
        return s.analytical_jacobian_by_sym(tuple(op[1]))

    def gas(self, spec, op):
        g = ref.names(spec["rxns"])["gas"] or ("CO_g",)
        return g[op[3] % len(g)]

    def op_shomate(self, m, s, spec, op):
        return m.corrector.shomate_correction(self.gas(spec, op), T=op[2])

    def op_entropy(self, m, s, spec, op):
        return m.corrector.entropy_correction(self.gas(spec, op), p=1e5, T=op[2])

    def op_config(self, m, s, spec, op):
        return [m.temperature, m.tolerance, m.decimal_precision, m.rate_algo, m.rootfinding, m.archived_variables,
                m.ref_energies, m.components, m.perturbation_size, m.unitcell_area, m.active_ratio,
                m.max_rootfinding_iterations]

    def op_texen(self, m, s, spec, op):
        from scaks.parsers.rxn_parser import RxnEquation
        return [RxnEquation(r).texen() for r in m.rxn_expressions]

    # stateful
    def op_solve(self, m, s, spec, op):
        if op[3] % 2:
            x = s.get_steady_state_cvgs(c0=tuple(op[1]))
            return [x, s.error, s.coverages]
        m.run(init_cvgs=list(op[1]), coarse_guess=bool(op[3] % 3))
        return [m.steady_state_coverages, m.TOFs, m.reversibilities, m.error]

    def op_xrc(self, m, s, spec, op):
        return s.get_single_XRC(self.gas(spec, op))

    def op_register(self, m, s, spec, op):
        from scaks.plugins.analysis import OnTheFlyAnalysis

        class Mine(OnTheFlyAnalysis):
            interval = 1
        before = len(m.analysis)
        m.analysis_register(Mine)
        return [before, len(m.analysis)]

    def op_state(self, m, s, spec, op):
        stored = None
        if os.path.exists(m.data_file):
            with open(m.data_file, "rb") as f:
                stored = pickle.load(f)
        return [len(m.analysis), s.coverages, stored, m.steady_state_coverages, m.TOFs]


def interleaved(case, root):
    w = World(case, root)
    pos = {k: -1 for k in range(len(case["models"]))}
    answers, repeats, pending = {}, [], []
    for k, again in case["order"]:
        if pos[k] < 0:
            w.build(k)
        else:
            op = case["models"][k]["ops"][pos[k]]
            r = w.do(k, op)
            answers["{}/{}".format(k, pos[k])] = r
            if again and op[0] not in STATEFUL:
                pending.append((k, pos[k], op))
            if op[0] in STATEFUL:
                pending = [p for p in pending if p[0] != k]
        pos[k] += 1
        if len(pending) > 2:
            for q, i, op in pending:
                repeats.append([q, i, w.do(q, op)])
            pending = []
    for q, i, op in pending:
        repeats.append([q, i, w.do(q, op)])
    touched = [k for k, (a, b) in w.setups.items() if a != b]
    return {"answers": answers, "repeats": repeats, "touched": [str(t) for t in touched]}


def alone(case, root, k):
    w = World(case, root)
    w.build(k)
    return {str(i): w.do(k, op) for i, op in enumerate(case["models"][k]["ops"])}


def free(case, root, k, i):
    """The query with only the data changes before it."""
    w = World(case, root)
    w.build(k)
    for op in case["models"][k]["ops"][:i]:
        if op[0] in MUTATORS:
            w.do(k, op)
    return w.do(k, case["models"][k]["ops"][i])


def forked(fn, *args):
    """Run in a fresh process; returns a function that waits for the answer."""
    out = os.path.abspath("answer_{}_{}".format(len(os.listdir(".")), fn.__name__))
    open(out, "w").close()
    root = os.path.abspath(out + "_dir")
    os.makedirs(root)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            r = fn(args[0], root, *args[1:])
            with open(out + ".tmp", "w") as f:
                json.dump(r, f)
            os.rename(out + ".tmp", out)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)

    def wait():
        try:
            _, status = os.waitpid(pid, 0)
        except BaseException:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise
        if os.WIFSIGNALED(status):
            raise core.Skip("timeout")
        if status:
            raise RuntimeError("a model failed in a fresh process, see stderr")
        with open(out) as f:
            return json.load(f)
    wait.pid = pid
    return wait


def start():
    """Load everything, build nothing."""
    import scaks.models.micro_kinetic_model   # noqa: F401


def difference(a, b):
    """None if equal, else the largest relative numerical difference or 'structure'."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        if len(a) == 2 and a[0] == "#" and b[0] == "#":
            if a[1] == b[1]:
                return None
            x, y = ref.mpf(a[1]), ref.mpf(b[1])
            return float(abs(x - y)/max(abs(x), abs(y), ref.mpf(10)**-60))
        worst = None
        for x, y in zip(a, b):
            d = difference(x, y)
            if d == "structure":
                return d
            if d is not None:
                worst = d if worst is None else max(worst, d)
        return worst
    return None if a == b else "structure"


def numbers(v):
    if isinstance(v, list):
        if len(v) == 2 and v[0] == "#":
            yield abs(float(ref.mpf(v[1])))
        else:
            for x in v:
                for y in numbers(x):
                    yield y


def judge(case, mon, kind, k, op, got, want):
    mon.counters["assertions"] += 1
    d = difference(got, want)
    if d is None:
        return
    detail = dict(query=op[0], model=k, got=json.dumps(got)[:300], want=json.dumps(want)[:300], difference=d,
                  rxns=case["models"][k]["rxns"])
    if case["mixed"] and d != "structure":
        # rounding at the lowest precision of the models, relative to the largest number in play
        least = min(s["prec"] for s in case["models"])
        big = max(list(numbers(want)) + [1.0])
        small = worst_absolute(got, want)
        if d < 10.0**-(least - 5) or small < big*10.0**-(least - 5)*1e16:
            mon.known_finding(KEY, **detail)
            return
    mon.violation(kind, **detail)


def worst_absolute(a, b):
    if isinstance(a, list) and len(a) == 2 and a[0] == "#":
        return float(abs(ref.mpf(a[1]) - ref.mpf(b[1])))
    if isinstance(a, list):
        return max([worst_absolute(x, y) for x, y in zip(a, b)] + [0.0])
    return 0.0


def run(case, mon):
    waits = []
    try:
        waits.append(forked(interleaved, case))
        for k in range(len(case["models"])):
            waits.append(forked(alone, case, k))
        together = waits[0]()
        singles = [w() for w in waits[1:]]
        waits = []
        mon.count("interleavings")
        if any(s.get("same_object") for s in case["models"]):
            mon.count("shared setup")
        if case["mixed"]:
            mon.count("mixed precision")
        mon.equal(together["touched"], [], "the setup given to a model was changed",
                  rxns=[s["rxns"] for s in case["models"]])
        tag = str(hash(json.dumps(case["order"])))
        for key, got in together["answers"].items():
            k, i = [int(x) for x in key.split("/")]
            op = case["models"][k]["ops"][i]
            mon.count("queries compared")
            mon.count("query " + op[0])
            if op[0] in MUTATORS:
                mon.count("data changes")
            if op[0] in ("solve", "xrc"):
                mon.count("solves")
            if not (isinstance(got, str) and got.startswith("error")):
                mon.count("kinds")
            mon.nontrivial([case["models"][k]["rxns"], op[0], i, tag])
            judge(case, mon, "another model changed the answer", k, op, got, singles[k][str(i)])
        for k, i, got in together["repeats"]:
            mon.count("repeated queries")
            judge(case, mon, "a repeated query changed its answer", k, case["models"][k]["ops"][i], got,
                  together["answers"]["{}/{}".format(k, i)])
        todo = [(k, i) for k, i in case["free"] if case["models"][k]["ops"][i][0] not in STATEFUL]
        for j in range(0, len(todo), 4):
            waits = [(k, i, forked(free, case, k, i)) for k, i in todo[j:j + 4]]
            part, waits = waits, [w for _, _, w in waits]
            for k, i, w in part:
                want = w()
                waits.remove(w)
                mon.count("history-free queries")
                judge(case, mon, "earlier calls changed the answer", k, case["models"][k]["ops"][i],
                      singles[k][str(i)], want)
        mon.show({"models": [s["rxns"] for s in case["models"]], "order": [k for k, _ in case["order"]]})
    finally:
        for w in waits:
            try:
                os.kill(w.pid, signal.SIGKILL)
                os.waitpid(w.pid, 0)
            except OSError:
                pass
