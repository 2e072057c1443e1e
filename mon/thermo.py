"""Independent gas thermodynamics from the pinned literature data."""
import json
import math
import os

from .ref import H_J, KB_EV, KB_J, P0, parse_elements

AMU = 1.66053904e-27
KJMOL = 0.01036427

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "literature.json")) as _f:
    LIT = json.load(_f)


def mass(name):
    return AMU*sum(LIT["mass"][e]*n for e, n in parse_elements(name).items())


def known_entropy(gas):
    return gas in LIT["rotation"] and gas in LIT["vibration"]


def entropy_gases():
    return sorted(g for g in LIT["rotation"] if known_entropy(g)
                  and all(e in LIT["mass"] for e in parse_elements(g[:-2])))


def shomate_gases():
    return sorted({k.split(":")[0] for k in LIT["shomate"]})


def entropy_correction(gas, p, T, m=None):
    """-kT ln(q_trans q_rot q_vib) of an ideal gas at p Pa."""
    if not known_entropy(gas):
        return 0.0
    m = mass(gas[:-2]) if m is None else m
    qt = (2*math.pi*m*KB_J*T/H_J**2)**1.5*KB_J*T/p
    rot = LIT["rotation"][gas]
    th = rot["theta"]
    if len(th) == 1:
        x = th[0]/T
        qr = 1/(rot["sigma"]*x)
        if x > 0.01:
            qr *= 1 + x/3 + x*x/15
    else:
        qr = math.sqrt(math.pi*T**3/(th[0]*th[1]*th[2]))/rot["sigma"]
    vib = LIT["vibration"][gas]
    qv = 1.0
    for v in vib:
        qv /= 1 - math.exp(-v/T)
    if len(vib) == 1:
        qv *= math.exp(-vib[0]/(2*T))
    return -KB_EV*T*(math.log(qt) + math.log(qr) + math.log(qv))


def shomate_correction(gas, T):
    """G(T) relative to 0 K from Shomate parameters; 0 without parameters at T."""
    ranges = []
    for k, v in LIT["shomate"].items():
        g, r = k.split(":")
        if g == gas:
            lo, hi = map(float, r.split("-"))
            ranges.append((lo, hi, v))
    ranges.sort(key=lambda r: r[:2])

    def H(T, c):
        t = T/1000.0
        return c[0]*t + c[1]*t**2/2 + c[2]*t**3/3 + c[3]*t**4/4 - c[4]/t + c[5] - c[7]

    def S(T, c):
        t = T/1000.0
        return c[0]*math.log(t) + c[1]*t + c[2]*t**2/2 + c[3]*t**3/3 - c[4]/(2*t**2) + c[6]

    def Cp(T, c):
        t = T/1000.0
        return c[0] + c[1]*t + c[2]*t**2 + c[3]*t**3 + c[4]/t**2
    for lo, hi, c in ranges:
        if lo <= T <= hi:
            h = 298.15*Cp(298.15, c)/1000.0 + H(T, c) - H(298.15, c)
            return KJMOL*(h - T*S(T, c)/1000.0)
    if ranges and T < ranges[0][0] < 300:
        lo, _, c = ranges[0]
        return KJMOL*(T*Cp(lo, c) - T*S(lo, c))/1000.0
    return 0.0


def ends(gas):
    """The temperatures at which the data of a gas begin or end."""
    out = []
    for k in LIT["shomate"]:
        g, r = k.split(":")
        if g == gas:
            out += map(float, r.split("-"))
    return sorted(set(out))


def boundary(gas, T):
    """T is (nearly) shared by two ranges of the gas: either may be used."""
    n = 0
    for k in LIT["shomate"]:
        g, r = k.split(":")
        if g == gas:
            lo, hi = map(float, r.split("-"))
            n += lo - 1e-6 <= T <= hi + 1e-6
    return n > 1
