"""P24: text written from data reads back as the same data."""
import math
import string

RULE = "a list, dictionary or duration written and read back; distinct (kind, length, columns)"
MIN = {"lists": 1500, "dictionaries": 500, "durations": 5000}


def number(rng):
    return rng.choice([rng.uniform(-1e3, 1e3), rng.randint(-10**6, 10**6), 10.0**rng.uniform(-300, 300), 0.0, -0.0, 0,
                       10**30, 0.1, 1e22, 123456789.123456789, rng.random()*1e-12, -rng.random(), 5e-324,
                       1.7976931348623157e308, True, False, None])


def text(rng):
    alphabet = string.ascii_letters + string.digits + " _*+-<>()[]{}.,:;#%&/|=@!?~^$"
    return "".join(rng.choice(alphabet) for _ in range(rng.choice([0, 1, 3, 12, 60])))


def entry(rng, kind):
    if kind == "numbers":
        return number(rng)
    if kind == "names":
        return text(rng)
    if kind == "mixed":
        return rng.choice([number, text])(rng)
    if kind in ("lists", "tuples"):
        n = rng.randint(0, 6)
        return [number(rng) for _ in range(n)] if rng.random() < 0.7 else [text(rng) for _ in range(n)]
    if kind == "nested":
        return [[number(rng) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 3))]
    return rng.choice([lambda: number(rng), lambda: text(rng), lambda: [number(rng)], lambda: []])()


def cases(rng, tier):
    for i in range(120 if tier == "quick" else 1200):
        c = {"lists": [], "dicts": [], "seconds": []}
        for _ in range(16):
            kind = rng.choice(["numbers", "names", "mixed", "lists", "tuples", "nested", "any"])
            n = rng.choice([0, 1, 2, 4, 5, 6, 9, 10, 11, rng.randint(0, 300)])
            c["lists"].append([kind, "".join(rng.choice(string.ascii_letters + "_") for _ in range(rng.randint(1, 9))) +
                               rng.choice(["", "_0", "12"]), [entry(rng, kind) for _ in range(n)],
                               rng.choice([None, 1, 2, 3, 5, 10, rng.randint(1, 400)]),
                               rng.choice(["list", "tuple", "zip", "generator"])])
        for _ in range(5):
            kind = rng.choice(["numbers", "lists", "nested"])
            c["dicts"].append(["d_%d" % rng.randint(0, 9),
                               {text(rng): entry(rng, kind) for _ in range(rng.choice([0, 1, 2, rng.randint(0, 100)]))}])
        for _ in range(50):
            h, m = rng.randint(0, 5000), rng.randint(0, 59)
            c["seconds"].append(rng.choice([h*3600 + m*60 + rng.randint(0, 59), h*3600 + m*60 + rng.random()*60,
                                            rng.random(), rng.randint(0, 10**7), h*3600, h*3600 + m*60,
                                            h*3600 + 3599, math.nextafter(h*3600 + 60*m + 60, 0),
                                            math.nextafter(h*3600 + 60*m + 60, 1e9), h*3600 + 60*m + 60 - 1e-9, h*3600 + 59, h*3600 + 60, 59.999, 3599.999, 0, 0.0]))
        yield c


def same(a, b):
    """Equal values of the same type."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def read(txt):
    locs = {}
    exec(txt, {}, locs)
    return locs


def run(case, mon):
    from scaks.utilities.format_utilities import convert_time, get_dict_string, get_list_string
    whole, expected = "", {}
    for k, (kind, name, data, ncols, container) in enumerate(case["lists"]):
        if name in ("if", "is", "in", "or", "as", "def", "for", "and", "not", "try", "del"):
            continue
        if kind == "tuples":
            data = [tuple(x) for x in data]
        given = {"list": lambda: list(data), "tuple": lambda: tuple(data), "zip": lambda: (x for x in data),
                 "generator": lambda: iter(data)}[container]()
        txt = get_list_string(name, given) if ncols is None else get_list_string(name, given, ncols)
        mon.count("lists")
        mon.nontrivial([kind, len(data), ncols])
        try:
            got = read(txt)
        except SyntaxError as e:
            mon.violation("a written list can not be read", text=txt, error=str(e))
            continue
        if mon.check(list(got) == [name], "the variables written", got=list(got), want=name):
            mon.check(same(list(got[name]), data), "a list reads back differently", got=got[name], want=data, ncols=ncols)
        whole += txt
        expected[name] = list(data)
    for name, d in case["dicts"]:
        before = list(d.items())
        txt = get_dict_string(name, d)
        mon.count("dictionaries")
        mon.nontrivial(["dict", len(d)])
        try:
            got = read(txt)
        except SyntaxError as e:
            mon.violation("a written dictionary can not be read", text=txt, error=str(e))
            continue
        if mon.check(list(got) == [name], "the variables written", got=list(got), want=name):
            g = got[name]
            mon.check(isinstance(g, dict) and sorted(g) == sorted(d) and all(same(g[k], d[k]) for k in d),
                      "a dictionary reads back differently", got=g, want=d)
        mon.equal(list(d.items()), before, "writing changed the dictionary")
        whole += txt
        expected[name] = dict(d)
    # the pieces may be put together in one file
    try:
        got = read(whole)
        mon.check(set(got) == set(expected) and all(
            (same(list(got[k]), v) if isinstance(v, list) else got[k] == v) for k, v in expected.items()),
            "data written to one file reads back differently")
    except SyntaxError as e:
        mon.violation("data written to one file can not be read", error=str(e))
    for sec in case["seconds"]:
        h, m, s = convert_time(sec)
        mon.count("durations")
        mon.close(h*3600 + m*60 + s, sec, "a duration denotes another time", atol=1e-7, rtol=1e-12, got_parts=[h, m, s])
        mon.check(h >= 0 and 0 <= m < 60 and -1e-6 <= s < 60 + 1e-6 and h == int(h) and m == int(m),
                  "the parts of a duration are out of range", seconds=sec, got=[h, m, s])
    mon.show({"list": case["lists"][0][1:3]})
