"""Construction of models of the code under test for the checks."""
import copy
import logging
import random


def close_logs(model):
    for h in list(model.logger.handlers):
        try:
            h.close()
        except Exception:
            pass
    model.clear_handlers()


def mkm(rxns, defs, keep_logs=False, **kw):
    """A MicroKineticModel with the steady state solver."""
    from scaks.models.micro_kinetic_model import MicroKineticModel
    level = kw.pop("level", logging.CRITICAL)
    setup = dict(rxn_expressions=list(rxns), species_definitions=copy.deepcopy(defs),
                 temperature=kw.pop("temperature", 500.0),
                 parser=kw.pop("parser", "RelativeEnergyParser"))
    setup["solver"] = kw.pop("solver", "SteadyStateSolver")
    if setup["solver"] is None:
        del setup["solver"]
    setup.update(kw)
    model = MicroKineticModel(setup_dict=setup, logger_level=level, file_handler_level=level,
                              console_handler_level=logging.CRITICAL)
    if not keep_logs:
        close_logs(model)
    return model


def with_relative(model, energies):
    """Parse relative energies through the public parser."""
    data = {"Ga": list(energies["Gaf"]), "dG": list(energies["dG"])}
    model.parser.parse_data(filename="no_such_file.py", energy_data=data)
    return model


def script(values, literal=repr):
    """An input file that defines `values` with imports and functions of its own."""
    out = ["# coding: utf-8", "import math", "", "def same(v):", "    return v if math.pi > 3 else None", "",
           "def pick(name):", "    value = known[name]",
           "    return [same(v) for v in value] if type(value) is list else same(value)", "", "known = {}"]
    for k, v in values.items():
        out.append("known[{!r}] = {}".format(k, literal(v)))
    for k in values:
        out.append("{} = pick({!r})".format(k, k))
    return "\n".join(out) + "\n"


def chosen(key, share=0.3):
    """A reproducible choice that depends on `key` only."""
    return random.Random(repr(key)).random() < share


def write_values(filename, values, key):
    """An input file in one of two styles."""
    with open(filename, "w") as f:
        if chosen(key):
            f.write(script(values))
        else:
            for k, v in values.items():
                f.write("{} = {!r}\n".format(k, v))


def with_absolute(model, energies, filename="abs_e.py"):
    write_values(filename, {"absolute_energies": energies}, energies)
    model.parser.parse_data(filename=filename)
    return model
