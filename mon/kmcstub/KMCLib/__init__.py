"""Stand-in for the external KMCLib library, which is not installed here.

It offers the classes that xmcao-ccc/SCAKS uses, keeps what they were given, and runs
a small but real rejection-free lattice simulation that drives the analysis plugins.
Everything that happened is recorded in HISTORY for the oracles.
"""
import builtins
import json
import math
import os
import random

__all__ = ["KMCUnitCell", "KMCLattice", "KMCConfiguration", "KMCSitesMap", "KMCProcess",
           "KMCInteractions", "KMCLatticeModel", "KMCControlParameters", "KMCAnalysisPlugin"]

HISTORY = []       # one dict per run
HOOKS = {"before_step": None}


class KMCUnitCell(object):
    def __init__(self, cell_vectors, basis_points):
        self.cell_vectors = [list(map(float, v)) for v in cell_vectors]
        self.basis_points = [list(map(float, v)) for v in basis_points]


class KMCLattice(object):
    def __init__(self, unit_cell, repetitions, periodic):
        self.unit_cell = unit_cell
        self.repetitions = tuple(repetitions)
        self.periodic = tuple(periodic)
        self.nbasis = len(unit_cell.basis_points)
        nx, ny, nz = self.repetitions
        self.nsites = nx*ny*nz*self.nbasis

    def cell_of(self, index):
        b = index % self.nbasis
        cell = index//self.nbasis
        nx, ny, nz = self.repetitions
        return (cell//(ny*nz), (cell//nz) % ny, cell % nz), b

    def find(self, cell, basis, offset):
        """The index of the site at this offset (in cell coordinates) from a site."""
        p = [c + x + o for c, x, o in zip(cell, self.unit_cell.basis_points[basis], offset)]
        for b, q in enumerate(self.unit_cell.basis_points):
            d = [x - y for x, y in zip(p, q)]
            r = [int(round(x)) for x in d]
            if all(abs(x - y) < 1e-5 for x, y in zip(d, r)):
                out = []
                for x, n, per in zip(r, self.repetitions, self.periodic):
                    if per:
                        x %= n
                    elif not 0 <= x < n:
                        return None
                    out.append(x)
                nx, ny, nz = self.repetitions
                return ((out[0]*ny + out[1])*nz + out[2])*self.nbasis + b
        return None


class _Types(object):
    def __init__(self, lattice, types, possible_types):
        if len(types) != lattice.nsites:
            raise ValueError("{} types for {} sites".format(len(types), lattice.nsites))
        for t in types:
            if t not in possible_types:
                raise ValueError("impossible type {!r}".format(t))
        self.lattice = lattice
        self._types = list(types)
        self.possible_types = list(possible_types)

    def types(self):
        return list(self._types)


class KMCConfiguration(_Types):
    def _script(self, variable_name="configuration"):
        return "{} = KMCConfiguration(lattice=lattice, types={!r}, possible_types={!r})\n".format(
            variable_name, self._types, self.possible_types)


class KMCSitesMap(_Types):
    pass


class KMCProcess(object):
    def __init__(self, coordinates, elements_before, elements_after, basis_sites, rate_constant,
                 fast=False, redist=False, redist_species=None):
        self.coordinates = [list(c) for c in coordinates]
        self.elements_before = list(elements_before)
        self.elements_after = list(elements_after)
        self.basis_sites = list(basis_sites)
        self.rate_constant = rate_constant
        self.fast = fast
        self.redist = redist
        self.redist_species = redist_species

    def _script(self, variable_name="process"):
        return ("{} = KMCProcess(coordinates={!r}, elements_before={!r}, elements_after={!r}, "
                "basis_sites={!r}, rate_constant={!r})\n\n").format(
                    variable_name, self.coordinates, self.elements_before, self.elements_after,
                    self.basis_sites, float(self.rate_constant))


class KMCInteractions(object):
    def __init__(self, processes, implicit_wildcards=True):
        self.processes = list(processes)
        self.implicit_wildcards = implicit_wildcards
        self._picked = 0
        self._available = [0]*len(self.processes)

    def pickedIndex(self):
        return self._picked

    def processAvailableSites(self):
        return list(self._available)

    def processRates(self):
        return [float(p.rate_constant) for p in self.processes]

    def _script(self, variable_name="interactions"):
        return "{} = KMCInteractions(processes=processes, implicit_wildcards={})\n".format(
            variable_name, self.implicit_wildcards)


class KMCControlParameters(object):
    KNOWN = {"time_limit", "number_of_steps", "dump_interval", "seed", "rng_type", "analysis_interval",
             "start_time", "extra_traj", "do_redistribution", "redistribution_interval", "fast_species",
             "nsplits", "distributor_type", "empty_element"}

    def __init__(self, **kwargs):
        unknown = set(kwargs) - self.KNOWN
        if unknown:
            raise TypeError("unexpected control parameters {}".format(sorted(unknown)))
        self.kwargs = dict(kwargs)


class KMCAnalysisPlugin(object):
    def __init__(self):
        pass

    def setup(self, step, time, configuration, interactions):
        pass

    def registerStep(self, step, time, configuration, interactions):
        pass

    def finalize(self):
        pass


class KMCLatticeModel(object):
    def __init__(self, configuration, sitesmap, interactions):
        self.configuration = configuration
        self.sitesmap = sitesmap
        self.interactions = interactions

    def _script(self, variable_name="lattice_model"):
        return (self.configuration._script() + "".join(
            p._script("process_{}".format(i)) for i, p in enumerate(self.interactions.processes)) +
            self.interactions._script() +
            "{} = KMCLatticeModel(configuration, sitesmap, interactions)\n".format(variable_name))

    def _match(self):
        """[(process, site, [affected sites])] that can happen now."""
        lat, types = self.configuration.lattice, self.configuration._types
        found = []
        for n, p in enumerate(self.interactions.processes):
            if p.fast or p.redist:
                continue
            origin = p.coordinates[0]
            for i in range(lat.nsites):
                cell, b = lat.cell_of(i)
                if b not in p.basis_sites:
                    continue
                sites = []
                for c, e in zip(p.coordinates, p.elements_before):
                    j = lat.find(cell, b, [x - o for x, o in zip(c, origin)])
                    if j is None or j in sites or (e != "*" and types[j] != e):
                        break
                    sites.append(j)
                else:
                    found.append((n, i, sites))
        return found

    def run(self, control_parameters, trajectory_filename=None, trajectory_type="lattice", analysis=None,
            **kwargs):
        cp = control_parameters.kwargs
        rng = random.Random(cp.get("seed"))
        steps = cp.get("number_of_steps", 1)
        limit = cp.get("time_limit")
        limit = float("inf") if limit is None else limit
        analysis = analysis or []
        interval = cp.get("analysis_interval")
        if interval is None:
            interval = 1
        intervals = [interval]*len(analysis) if isinstance(interval, int) else list(interval)
        time = cp.get("start_time") or 0.0
        inter, conf = self.interactions, self.configuration
        log = {"model": self, "cp": control_parameters, "trajectory_filename": trajectory_filename,
               "trajectory_type": trajectory_type, "analysis": analysis, "events": [], "start": time,
               "initial": conf.types(), "given": [], "tables": []}
        HISTORY.append(log)

        def table():
            m = self._match()
            inter._available = [0]*len(inter.processes)
            for n, _i, _s in m:
                inter._available[n] += 1
            return m
        matches = table()
        log["table0"] = list(inter._available)
        for a in analysis:
            a.setup(0, time, conf, inter)
        step = 0
        failing = (os.environ.get("KMCSTUB_FAIL") or "").split()
        while step < steps and time < limit:
            if HOOKS["before_step"]:
                HOOKS["before_step"](step)
            if failing and step == int(failing[1]):
                raise getattr(builtins, failing[0])("the engine fails")
            rates = [float(inter.processes[n].rate_constant) for n, _i, _s in matches]
            total = math.fsum(rates)
            if not matches or total <= 0:
                break
            u, acc, pick = rng.random()*total, 0.0, None
            for m, r in zip(matches, rates):
                acc += r
                if r > 0:
                    pick = m
                if acc > u and r > 0:
                    break
            n, _i, sites = pick
            for j, e in zip(sites, inter.processes[n].elements_after):
                if e != "*":
                    conf._types[j] = e
            time += -math.log(1.0 - rng.random())/total
            step += 1
            inter._picked = n
            matches = table()
            log["events"].append((step, time, n, conf.types(), list(inter._available)))
            for k, a in enumerate(analysis):
                iv = intervals[k]
                if isinstance(iv, int):
                    due = step % iv == 0
                else:
                    start, end, st = iv
                    due = start <= step < end and (step - start) % st == 0
                if due:
                    log["given"].append((k, step))
                    a.registerStep(step, time, conf, inter)
        for a in analysis:
            a.finalize()
        log["final"] = conf.types()
        if os.environ.get("KMCSTUB_HISTORY"):
            _record(log, os.environ["KMCSTUB_HISTORY"])
        return log


def _record(log, filename):
    """What happened, and the trajectory, for those who watch from outside the process."""
    frames = [(0, log["start"], log["initial"])] + [e[:2] + (e[3],) for e in log["events"]]
    if log["trajectory_filename"] and log["trajectory_type"] == "lattice":
        with open(log["trajectory_filename"], "w") as f:
            for k, name in enumerate(("steps", "times", "types")):
                f.write("{} = {!r}\n".format(name, [x[k] for x in frames]))
    procs = log["model"].interactions.processes
    with open(filename, "w") as f:
        json.dump({"events": log["events"], "start": log["start"], "initial": log["initial"], "final": log["final"],
                   "given": log["given"], "cp": log["cp"].kwargs, "rates": [float(p.rate_constant) for p in procs],
                   "possible_types": log["model"].configuration.possible_types, "sites": log["model"].sitesmap.types(),
                   "analysis": [type(a).__name__ for a in log["analysis"]]}, f)
