#!/usr/bin/env python3
"""Source of properties.jsonl: P(id, title, statement, over, quantifier, why, files, mechanism, observe)."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ROWS = []


def P(pid, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (pid, len(title))
    assert len(text) and len(why)
    assert statement.count(". ") <= 2, pid
    a = {"files": ["scaks/" + f if not f.startswith("c++") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state:
        a["state"] = state
    ROWS.append({"id": pid, "title": title, "statement": statement,
                 "quantifier": {"over": over.split(), "text": text},
                 "why_tests_cant": why, "anchors": a})


RP = "parsers/rxn_parser.py"
PB = "parsers/parser_base.py"
MF = "solvers/mean_field_solver.py"
SS = "solvers/steady_state_solver.py"
SB = "solvers/solver_base.py"
KM = "models/kinetic_model.py"
MK = "models/micro_kinetic_model.py"
KS = "solvers/kmc_solver.py"
KP = "parsers/kmc_parser.py"

P("P01", "Reaction expressions are read exactly and accepted iff they are balanced",
  "Every formula of the documented grammar is read into exactly its stoichiometric number, species, elements with "
  "counts, number of sites, site name and kind (gas, liquid, adsorbate, transition state, free site), and every "
  "state or reaction string into exactly its terms in order. A reaction or a model is accepted if and only if every "
  "state of each reaction conserves the number of atoms of each element and of sites of each type, and text that is "
  "not entirely a formula or a reaction of the grammar is refused. The "
  "conservation verdict does not depend on how many times an object is asked or which strings were read before.",
  "inputs histories",
  "every formula, state, elementary reaction and mechanism over the grammar (repeated species, several site types, "
  "multi-site adsorbates, one- and two-letter elements, spaces), balanced or not, in any order of calls",
  "the tests read a dozen fixed strings; a misread coefficient or element in any other string silently changes every number that follows",
  [RP, PB, "models/kinetic_model.py"],
  [("formula grammar and element counts", RP + ":ChemFormula"), ("state totals and conservation", RP + ":ChemState"),
   ("reaction splitting", RP + ":RxnEquation"), ("conservation check at model construction", PB + ":ParserBase")],
  ["return values of the public formula/state/equation API", "acceptance of models"])

P("P02", "Reversal, gas extraction and LaTeX of a reaction keep all of its terms",
  "Reversing an elementary reaction exchanges its initial and final states, keeps the transition state and every "
  "coefficient, and reversing twice gives back the reaction. The adsorption and desorption gases of a reaction are "
  "exactly the gas species of its two ends. The LaTeX rendering contains every term of every state, in order, with its coefficient, atoms and sites.",
  "inputs", "every two- and three-state reaction of the grammar", "three fixed reactions are tested",
  [RP], [("reversal, gases", RP + ":RxnEquation"), ("LaTeX", RP + ":ChemFormula.texen, ChemState.texen, RxnEquation.texen")])

P("P03", "Species lists and stoichiometric matrices agree with the mechanism",
  "The species lists of a model hold exactly the sites, gases, liquids, adsorbates and transition states that occur in "
  "its reactions, each once. Every entry of the intermediate and gas stoichiometric matrices is the net amount consumed "
  "or produced of that species in that reaction, with repeated and both-sided species summed.",
  "inputs configurations", "every accepted mechanism, including several site types, liquids, repeated species and multi-site adsorbates",
  "the tests compare two literal matrices of one mechanism",
  [PB, KM], [("classification", PB + ":ParserBase.parse_elementary_rxns"), ("matrices", PB + ":ParserBase.get_stoichiometry_matrices")])

P("P04", "The total reaction is a balanced combination that leaves the surface unchanged",
  "For a mechanism whose elementary reactions close a catalytic cycle, the reported total reaction contains only gas and "
  "liquid species, conserves every element, and is a non-trivial linear combination of the elementary reactions in which every "
  "adsorbate and free site cancels exactly. When no such combination exists an error is reported.",
  "inputs configurations", "random catalytic cycles with side branches, several routes, shuffled order; mechanisms without a cycle",
  "one mechanism is tested",
  [PB], [("null space of the intermediate matrix", PB + ":ParserBase.get_total_rxn_equation")])

P("P05", "Molecular mass is the sum of its element masses",
  "The mass of any formula is the sum over its atoms of the standard atomic mass, in kilograms where a mass enters a rate constant. "
  "An unknown element is reported as an error rather than ignored.",
  "inputs", "every element of the table and random multi-element formulas with counts up to two digits", "two molecules are tested",
  [PB, "database/elements_data.py", "models/kinetic_model.py"], [("mass", PB + ":ParserBase.get_molecular_mass")])

P("P06", "Reaction energetics are consistent differences of state energies",
  "From absolute energies, the reaction energy is the difference of the end states and each barrier the difference between the transition state "
  "(or the higher end state when there is none) and its own end, with stoichiometric weights; so forward barrier minus reverse barrier is the "
  "reaction energy and any closed cycle of reactions sums to zero. Relative energies given by the user are used unchanged, "
  "the reverse barrier being their difference, and data that do not match the mechanism are reported as errors.",
  "inputs configurations", "random mechanisms and energies, energies given in memory or in files, complete or incomplete",
  "a single energy file per parser is tested with literal expectations",
  ["parsers/absolute_energy_parser.py", "parsers/relative_energy_parser.py", PB],
  [("state energies", PB + ":ParserBase._get_state_energy, _get_single_relative_energies, _get_relative_from_absolute"),
   ("reading", "parsers/relative_energy_parser.py"), ("reading", "parsers/absolute_energy_parser.py")])

P("P07", "Rate constants follow transition state and collision theory",
  "Each rate constant equals kB*T/h*exp(-G/kBT) under transition state theory; under collision theory adsorption of a gas equals "
  "pressure-normalised Hertz-Knudsen collision times the Boltzmann factor, and its reverse follows from equilibrium. "
  "For every reaction and temperature the ratio of forward and reverse constants equals exp(-dG/kBT), and the rate with gas pressure "
  "included multiplies by the pressures to their stoichiometric powers.",
  "inputs configurations", "random reactions, temperatures from 200 K to 1500 K, barriers, pressures, unit cell areas, active ratios, both algorithms",
  "one reaction at one temperature per algorithm is tested",
  [SB, KS, MF, "functions.py"], [("formulas", SB + ":SolverBase.get_kTST, get_kCT"), ("selection and detailed balance", SB + ":SolverBase.get_rxn_rates_TST, get_rxn_rates_CT")])

P("P08", "Thermodynamic corrections are exact and applied once to every gas molecule",
  "The correction of a gas at a temperature and pressure is the documented polynomial or statistical-mechanics value plus the ideal-gas pressure term, "
  "and is refused or reported when no data exist. Correcting a model's absolute or relative energies shifts every state by the correction of each of its gas "
  "molecules times its coefficient, exactly once, leaves surface species untouched, and keeps barriers and reaction energies consistent.",
  "inputs configurations histories", "all gases of the database, temperatures across every validity range, pressures over ten decades, random mechanisms, repeated correction calls",
  "two gases at one temperature are tested",
  ["correctors/thermodynamic_corrector.py", "database/thermo_data.py"],
  [("polynomials", "correctors/thermodynamic_corrector.py:ThermodynamicCorrector.shomate_correction"),
   ("statistical mechanics", "correctors/thermodynamic_corrector.py:ThermodynamicCorrector.entropy_correction"),
   ("application", "correctors/thermodynamic_corrector.py:ThermodynamicCorrector.correct_relative_energies")])

P("P09", "Elementary rates follow the law of mass action",
  "For any coverages, the forward and reverse rate of every reaction is its rate constant times the product over every term of its initial or final state of "
  "gas pressure, liquid concentration, coverage or free-site fraction to the power of its coefficient. Net rates are their difference and reversibilities their ratio.",
  "inputs configurations", "random mechanisms (repeated and multi-site species, liquids, several sites), coverages including unphysical ones, precisions",
  "one mechanism at one coverage vector is tested",
  [MF], [("rate expressions", MF + ":MeanFieldSolver.get_rate_expressions"), ("rates", MF + ":MeanFieldSolver.get_rates, get_net_rates, get_reversibilities")])

P("P10", "Coverage derivatives are the stoichiometric sum of net rates and conserve sites",
  "The time derivative of each adsorbate's coverage is the sum over reactions of its net produced amount times the net rate. "
  "Free sites plus occupied sites of each type always add to the site total, so the occupied-site derivative equals minus the free-site derivative.",
  "inputs configurations", "as P09",
  "one mechanism at one coverage vector is tested",
  [SS, MF], [("derivative expressions", SS + ":SteadyStateSolver.get_adsorbate_dtheta_dt_expression"), ("free sites", MF + ":MeanFieldSolver._cvg_tuple2dict")])

P("P11", "The analytical Jacobian is the exact derivative of the coverage equations",
  "Every entry of the analytical Jacobian equals the partial derivative of the corresponding coverage derivative with respect to the corresponding coverage, "
  "including the dependence through free sites, at any coverages. The numerical Jacobian agrees with it within its difference error.",
  "inputs configurations", "as P09", "one mechanism at one coverage vector is tested with literals",
  [SS, "functions.py"], [("product rule on expressions", SS + ":SteadyStateSolver.poly_adsorbate_derivation"),
   ("assembly", SS + ":SteadyStateSolver.analytical_jacobian")])

P("P12", "The symbolic route describes the same model as the numerical one",
  "Rates, turnover frequencies, coverage derivatives and Jacobian entries obtained by substituting values into the symbolic expressions equal the numerical ones. "
  "The LaTeX files list, for each reaction and adsorbate, equations with exactly those terms.",
  "inputs configurations", "random mechanisms with unit and non-unit coefficients, random coverages", "one mechanism is tested by string length or single values",
  [MF, SS], [("symbols", MF + ":MeanFieldSolver.get_data_symbols"), ("symbolic rates", MF + ":MeanFieldSolver.get_elementary_rate_sym, get_rates_by_sym"), ("symbolic derivatives", SS + ":SteadyStateSolver.get_elementary_dtheta_dt_sym, analytical_jacobian_sym"),
   ("LaTeX", MF + ":MeanFieldSolver.get_latex_strs")])

P("P13", "A reported steady state is physical and meets the tolerance",
  "Whenever a solution is reported as converged, all coverages and free sites are non-negative, the largest coverage derivative is below the tolerance, and the reported error, "
  "turnover frequencies, reversibilities and model information belong to those coverages. A converged solution given back as initial guess is kept, and given energies are used instead of the model's own.",
  "inputs configurations histories", "random mechanisms and energies, both root finders, coarse and fsolve routes, physical and unphysical initial guesses, three tolerances",
  "one or two mechanisms are solved and compared with literals",
  [SS, "solvers/rootfinding_iterators.py", MK],
  [("Newton iterations", "solvers/rootfinding_iterators.py"), ("convergence and bad-root tests", SS + ":SteadyStateSolver.get_steady_state_cvgs"), ("driver", MK + ":MicroKineticModel.run")])

P("P14", "Turnover frequencies obey stoichiometry, element balance and equilibrium",
  "The turnover frequency of each gas or liquid is the sum over reactions of its net produced amount times the net rate. At a steady state the turnovers conserve every element, "
  "at thermodynamic equilibrium all net rates vanish, and the product of reversibilities along a closed route equals the reaction quotient over the equilibrium constant.",
  "inputs configurations", "random mechanisms, coverages, energies; constructed equilibria", "one mechanism with literals",
  [MF, SS], [("TOF", MF + ":MeanFieldSolver.get_tof")])

P("P15", "Degrees of rate control are the relative response of the turnover to barriers",
  "Each reported degree of rate control equals the finite-difference logarithmic sensitivity of the chosen turnover frequency to stabilising that reaction's transition state "
  "(both barriers, reaction energy unchanged). Computing them leaves the model's energies, coverages, error and turnover frequencies as they were.",
  "inputs configurations histories", "random mechanisms with a converged state, every gas, repeated evaluations", "one mechanism with literals",
  [SS], [("perturbed solution", SS + ":SteadyStateSolver.get_single_XRC, get_XRC")])

P("P16", 'The transient integration follows the coverage equations',
  "The integration steps through equally spaced times from the start time until the end time is reached, and the coverages it returns and records equal the solution of the coverage equations started from the given coverages, whichever algorithm is chosen, within the integrator's tolerance. The recorded trajectory reloads to times and coverages that were actually computed, in order, one every output interval; an interrupted integration leaves those computed so far, and no file is written unasked.",
  "inputs configurations", "random mechanisms, initial coverages, spans, both integrators, with and without given energies and file output",
  "one trajectory is compared with literals",
  [SS], [("integration", SS + ":SteadyStateSolver.solve_ode"), ("trajectory file", SS + ":SteadyStateSolver.solve_ode")])

P("P17", "Boltzmann coverages and the hybrid-guess protocol",
  "Boltzmann coverages are proportional to exp(-G/kBT) over the adsorbates and free sites and normalised with them. When no initial guess exists the registered hybrid method is asked with 0, and after the n-th failed "
  "Newton attempt with n; its answer is the next initial guess, and without a hybrid method a failing search ends without claiming convergence.",
  "inputs histories fault_sequences", "random energies and temperatures; Newton attempts made to fail zero to several times; hybrid methods absent, default or registered",
  "one value and one happy path are tested",
  [SS, MK, "plugins/hybrid_methods.py", MF], [("Boltzmann coverages", MF + ":MeanFieldSolver.boltzmann_coverages"), ("protocol", SS + ":SteadyStateSolver.get_steady_state_cvgs"),
   ("registration", MK + ":MicroKineticModel.hybrid_method_register")])

P("P18", 'Models do not influence one another and results do not depend on history',
  'Every quantity computed from a model depends only on its own setup, data and the arguments: building, computing or correcting other models, earlier or interleaved, or repeating a call, never changes it. Using a model never changes the objects it was built from.',
  "histories schedules", "random interleavings of several models' constructions and queries compared with the same queries in fresh isolation", "every test builds one model",
  [KM, MK, SB, PB, "compatutil.py"], [("per-instance state and memoisation", SB), ("class-level defaults", "descriptors/descriptors.py")])

P("P19", 'Invalid configuration is rejected and accepted configuration is read-only',
  'A setup value of the wrong type or outside its allowed candidates is refused with an error, required items must be present, every accepted value reads back equal to what was given and every omitted one has its documented default. Configuration cannot be reassigned through the model, and changing the returned species definitions does not change the model.',
  "inputs configurations", "every setup attribute with values of right and wrong types, boundary values, candidates and near-misses", "four descriptors are tested with one wrong value",
  ["descriptors/descriptors.py", "descriptors/component_descriptors.py", KM, MK, "models/kmc_model.py"], [("descriptors", "descriptors/descriptors.py")])

P("P20", "A setup file and the equivalent dictionary define the same model",
  "Loading a setup file gives a model with the same attributes, data and results as passing its variables as a dictionary. Unknown parameters are ignored with a warning and change nothing.",
  "inputs configurations", "random setups written to files in several layouts, with computed values, imports and extra names", "one fixed file is loaded",
  [KM, MK], [("loading", KM + ":KineticModel.__init__")])

P("P21", "Archived results equal the run's results and restart from them",
  'After a run of the Newton solver the data file holds exactly the requested variables with the values of that run, later archives of the same model keep earlier ones, computing rate control leaves it alone, and a failed run archives no steady state. A model that finds archived coverages starts from them and reports the same steady state; with a missing or unusable file it starts as without one.',
  "histories crash_points configurations", "random selections of archived variables, one to several runs, restarts in new models and directories, missing or partial files", "nothing is tested about the content",
  ["__init__.py", MK, SS], [("archive", "__init__.py:ModelShell.archive_data"), ("restart", MK + ":MicroKineticModel.run")])

P("P22", 'Analysis plugins see every iteration of every attempt exactly once',
  "For each attempt with an initial guess every registered analysis is set up once, then gets one step for each iteration that goes on and is a multiple of its interval, in increasing order with the solver's current coverages, then is finalised once with the same attempt number, also when the attempt fails or raises. Several analyses do not affect each other or the solution, inherited hooks run, and wrong intervals, hooks or classes are refused.",
  "histories schedules fault_sequences", "random mechanisms, intervals, numbers of plugins, failing and succeeding attempts, hooks inherited from user base classes", "one trivial plugin is registered",
  [SS, MK, "plugins/analysis.py", "plugins/metaclasses.py"], [("calls", SS + ":SteadyStateSolver.get_steady_state_cvgs"), ("plugin class construction", "plugins/metaclasses.py")])

P("P23", 'Distributing work over MPI ranks loses and duplicates nothing',
  'For any list and any number of ranks, the pieces given to the ranks are disjoint, in order and together the whole list, and their sizes differ by at most one. Broadcast and gathered data arrive unchanged on every rank, and a master-only function runs on the master only and returns its result there.',
  "inputs schedules configurations", "lists of 0 to several hundred items of any kind, 1 to 16 ranks, real MPI runs and simulated communicators", "not tested (a test needs mpirun)",
  ["mpicommons.py"], [("splitting", "mpicommons.py:MPIUtil.split_seq, split_size"), ("broadcast, gather", "mpicommons.py:MPIUtil.bcast, merge_seq"), ("master only", "mpicommons.py:master_only")])

P("P24", "Text written from data reads back as the same data",
  "Evaluating the text produced for a list or dictionary gives a variable of the requested name that equals the data (a list of numbers or strings; a dictionary of them), for any lengths and column counts. "
  "The formatted duration of a number of seconds denotes the same duration.",
  "inputs", "lists and dictionaries of 0 to hundreds of numbers and names, any column count, durations up to months", "one list and one dictionary are tested",
  ["utilities/format_utilities.py"], [("formatting", "utilities/format_utilities.py:get_list_string, get_dict_string, convert_time")])

P("P25", 'Coordinate groups move, grow and add up without losing or changing sites',
  "Moving a group shifts every coordinate by the vector and keeps the elements; the sum of two groups holds the sites of the first in order followed by those of the second that are not among them, an element 'V' of a shared site being replaced by that of the other group; appending and extending add exactly the given sites. Moves and sums return new groups and leave their operands as they were, and malformed coordinates, elements or lengths are refused.",
  "inputs", "random groups of 1 to 12 sites with one to three dimensions, duplicates, near-equal coordinates", "five fixed groups are tested",
  ["utilities/coordinate_utilities.py"], [("operations", "utilities/coordinate_utilities.py:CoordsGroup")])

P("P26", 'Lattice processes are expanded completely with the right rates and labels',
  'Each process definition yields, for every basis site and every coordinate set, one forward process and one reverse process (none for redistribution), with elements exchanged and the rate constants of its reaction and temperature, gas pressure included. The label reported for a process number is the reaction and direction that produced it, whichever way and however often the processes are requested, and the generated process script rebuilds exactly these processes.',
  "inputs configurations histories", "random process definitions with several coordinates, basis sites, redistribution, directions and repeated requests", "one definition file is tested by length",
  [KP, KS], [("definitions", KP + ":KMCParser.parse_processes"), ("expansion", KS + ":KMCSolver.get_processes"), ("labels", KS + ":KMCSolver.process_mapping")])

P("P27", 'Lattice inputs reach the simulation unchanged and bad ones are rejected',
  'Cell, basis, repetitions, periodicity, site types, initial types, possible types, analysis plugins and control parameters given by the user are exactly those the simulated lattice, configuration and run receive, with the documented defaults for what is absent. Process definitions with missing or inconsistent reaction, coordinates, elements or basis sites, and impossible site or empty types, are rejected before the run.',
  "inputs configurations", "random lattices, configurations in memory and in files, control parameter subsets, damaged process definitions", "one fixed input set is tested",
  [KP, KS, "models/kmc_model.py"], [("construction", KP + ":KMCParser.construct_lattice, construct_sitesmap, parse_configuration"), ("control parameters", KS + ":KMCSolver.get_control_parameters"), ("checks", "utilities/check_utilities.py:check_process_dict")])

P("P28", 'The coverage log of a lattice run is complete and correct at any buffer size',
  "The coverage file of a lattice run reloads to one record for the start and one per registered step, in order, with the step's time and number and, for each possible type, the ratio-weighted fraction of sites holding it at that time, the empty type taking the rest to one. The content does not depend on the buffer size or the moment of flushing, and an interrupted run loses fewer records than one buffer.",
  "histories inputs crash_points", "random simulated runs of the real plugins with buffer sizes 1 to larger than the run, site subsets and intervals", "needs an external library: not tested here",
  ["solvers/kmc_plugins/coverages_analysis.py", "solvers/kmc_plugins/kmc_functions.py"], [("buffering", "solvers/kmc_plugins/coverages_analysis.py:CoveragesAnalysis"), ("counting", "solvers/kmc_plugins/kmc_functions.py")])

P("P29", 'Event, frequency and turnover logs count every executed event exactly once',
  "The frequency counts are the numbers of times each process and each labelled reaction was executed, in total and from the chosen start step on, and its rates the latter per site and elapsed time; each turnover record holds every process's executions per site and time in an interval longer than the chosen one, the intervals following each other without overlap. The event log holds, for consecutive registered steps in order, the available sites, rates and probabilities of all processes and marks the one executed next.",
  "histories inputs", "random simulated runs of the real plugins with buffer sizes, start steps and intervals, labels and reverse processes", "needs an external library: not tested here",
  ["solvers/kmc_plugins/event_analysis.py", "solvers/kmc_plugins/frequency_analysis.py", "solvers/kmc_plugins/tof_analysis.py"],
  [("events", "solvers/kmc_plugins/event_analysis.py"), ("frequencies", "solvers/kmc_plugins/frequency_analysis.py"), ("TOF", "solvers/kmc_plugins/tof_analysis.py")])

P("P30", 'The native coverage collector is memory safe and agrees with the Python one',
  'The compiled coverage collector performs no out-of-bounds access, overflow or leak on any input with at least one ratio, and for every list of types, distinct possible types and ratios dividing it returns the same coverages as the Python collector. Types that are not among the possible ones are counted nowhere, and a call neither changes its inputs nor depends on earlier ones.',
  "inputs", "random and degenerate type lists up to thousands of sites, ratios, missing and repeated types", "the compiled part is not tested",
  ["c++/src/kmc_functions.cpp", "c++/include/kmc_functions.h", "solvers/kmc_plugins/kmc_functions.py"],
  [("native", "c++/src/kmc_functions.cpp:collect_coverages"), ("Python", "solvers/kmc_plugins/kmc_functions.py:collect_coverages")])

P("P31", 'Generated energy templates are complete and loadable',
  'The absolute and relative energy templates generated for a model contain exactly one entry per species, grouped by kind, or per reaction in the order of the mechanism, and loading a filled-in template gives the model exactly those energies. Generating a template never alters the model.',
  "inputs configurations", "random mechanisms and random values written into the templates", "only one template is compared with a literal string",
  [KM, MK, PB], [("templates", KM + ":KineticModel.generate_absolute_energies_file, generate_relative_energies_file")])

P("P32", "Energy profiles draw each reaction's states at its own energies",
  'For every reaction one figure, named by its number and expression, is saved whose curve starts at zero, passes through the forward barrier when it exceeds both ends, ends at the reaction energy and lies inside the axes, with the requested drawing options. Drawing is possible for every reaction, leaves the energies unchanged and can be repeated.',
  "inputs configurations", "random mechanisms and energies, with and without transition states, single and multiple profiles", "the figure's existence is tested, not its values",
  ["plotters/energy_profile_plotter.py"], [("line data", "plotters/energy_profile_plotter.py:EnergyProfilePlotter.plot_all")])

P("P33", "Models of several MPI ranks do not get in each other's way",
  "Whatever the order and delays in which the ranks of an MPI program proceed, each rank logs, archives and records its transient into its own files, the directories holding them exist before any rank writes there, and every rank gets the results of a serial run of its model. Files shared by the ranks of a lattice run are written by the master only and equal those of a serial run. A restart of a rank starts from what the same rank archived, and ranks that draw the energy profiles of one model at the same time leave the drawings of a serial run.",
  "schedules configurations histories", "2 to 5 ranks with injected delays, slow directory creation, existing and missing directories, micro kinetic scans and lattice runs with every plugin", "not tested (a test needs mpirun)",
  [MK, KM, "mpicommons.py", "solvers/kmc_plugins/frequency_analysis.py", "solvers/kmc_plugins/tof_analysis.py", KS],
  [("directories and logs", KM + ":KineticModel._set_logger"), ("data files", MK + ":MicroKineticModel.data_file"), ("shared files", "solvers/kmc_plugins/frequency_analysis.py, tof_analysis.py, coverages_analysis.py, event_analysis.py")])

P("P34", "What a run reports in its log are the values of that run",
  "Every table a run writes to its log (rate constants, rates, reversibilities, turnover frequencies, coverages, degrees of rate control and the progress of integrations) has one row per reaction or species, in the order of the model, and every number in it is the one the run calculated for the energies it used. The final error reported is the residual of the reported coverages.",
  "inputs configurations", "random mechanisms and energies, own and given, with and without rate control, both root finders, several output intervals", "no log is tested",
  [MF, SS, MK], [("tables", MF + ":MeanFieldSolver.get_rate_constants, get_rates, get_reversibilities, get_tof"), ("coverages, rate control, progress", SS + ":SteadyStateSolver")])

P("P35", "Impossible requests are refused and leave the model as it was",
  "A request that names an unknown gas, adsorbate, reaction, handler or method, has coverages of a wrong type or number, lacks the energies or barriers it needs, or compares chemical states with other objects or contents is refused with the documented error. After any number of refused requests the energies, coverages, error, turnover frequencies and archived data of the model are those it had, and it solves to the same results as a model that was never asked.",
  "inputs histories", "random mechanisms, solved and unsolved models, random orders of some thirty kinds of bad requests", "a few refusals are tested, not what they leave behind",
  [MF, SS, SB, MK, KM, RP],
  [("given energies", MF + ":MeanFieldSolver.get_rate_constants"), ("names", MF + ":MeanFieldSolver.get_tof"), ("initial guess", MK + ":MicroKineticModel.run"), ("conservation", RP + ":ChemFormula.conserve, ChemState.conserve")])

P("P36", "A scripted run archives the steady state of its setup file, or fails",
  "Running the micro kinetic run script in a directory with a setup file and its energies, alone or by several MPI ranks, succeeds only with an archive per rank whose coverages are physical and satisfy the coverage equations of that setup to its tolerance and whose rates, net rates, reversibilities and turnover frequencies follow from them, with exactly the variables asked for. The transient recorded on the way reloads at equal time intervals. An invalid setup or missing energies make the script fail without archiving a steady state, running again in the same directory gives the same results, and files that are not the script's own stay as they are.",
  "inputs configurations histories", "random mechanisms and energies, both energy parsers, literal and computed setup files, one to three ranks, seven kinds of faults, repeated runs", "the scripts are not tested",
  [MK, KM, SS], [("script", "../scripts/mkm_run/run.py"), ("set up", KM + ":KineticModel"), ("run", MK + ":MicroKineticModel.run")])

P("P37", "A scripted lattice run reports what happened; continuing it takes up from there",
  "The lattice run script in a directory with a setup file succeeds only if the simulation ran to its end with the mechanism, lattice, processes, control parameters and start time of that setup, and the times, coverages, occurrence numbers and rates in its files are those of the run that happened. After the continuation script the setup file differs only in its start time, which is the last recorded time, and the next run starts from there. An invalid setup, impossible processes or missing energies make the script fail without a simulation.",
  "inputs configurations histories", "random lattice mechanisms, processes, control parameters, analyses, setup files with and without start time, eight kinds of faults, chains of continued runs", "the scripts are not tested",
  [KM, KP], [("script", "../scripts/kmc_run/run.py"), ("continuation", "../scripts/kmc_run/change_start_time.py"), ("run", "models/kmc_model.py:KMCModel.run")])

with open(OUT, "w") as f:
    for r in ROWS:
        f.write(json.dumps(r) + "\n")
print(len(ROWS))
