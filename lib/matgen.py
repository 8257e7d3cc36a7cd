"""Random formulas, compositions and materials."""
from common import *

COMMON = ["H2O", "Fe2O3", "SiO2", "NaCl", "Ca3(PO4)2", "(NH4)2SO4", "CuSO4(H2O)5", "Fe.5Ni.5", "C6H12O6", "Mg(OH)2", "PbCrO4", "U3O8",
          "K4(Fe(CN)6)", "Al2(SO4)3", "Ca10(PO4)6(OH)2", "YBa2Cu3O6.93"]


def number(r):
    m = r.random()
    if m < .35:
        return ""
    if m < .7:
        return str(r.randint(1, 12))
    if m < .9:
        return "%.*f" % (r.randint(1, 3), r.uniform(.05, 9.9))
    if m < .95:
        return ".%d" % r.randint(1, 99)
    return "%d." % r.randint(1, 9)


def formula(r, els, depth=0):
    out = ""
    for k in range(r.choice([1, 1, 2, 2, 3, 4])):
        if depth < 3 and r.random() < (.25 if depth else .3):
            out += "(" + formula(r, els, depth + 1) + ")" + number(r)
        else:
            out += r.choice(els) + number(r)
    return out


def amounts(r, parts):
    """Amounts of the parts: mass fractions, percentages, in any unit (a common factor), with traces."""
    unit = 10 ** r.uniform(-20, 20) if r.random() < .12 else 1.0
    out = {k: unit * r.choice([r.uniform(.01, 1), r.uniform(1, 60), 1.0]) for k in parts}
    if out and r.random() < .12:
        out[r.choice(list(out))] *= 10 ** -r.uniform(2, 14)
    return out


def composition(r, names, n=None):
    return amounts(r, subset(r, names, 1, n or 4))
