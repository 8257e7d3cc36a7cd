"""Random shell data: transition labels, rates and constants."""
import math
from common import *

OUTER = ["N1", "N2", "N3", "N4", "N5", "N6", "N7", "O1", "O2", "O3", "O4", "O5", "P1", "P2", "P3"]
ALL = ["L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"] + OUTER


def above(name):
    """Shells that can fill a vacancy of this shell."""
    if name == "K":
        return ALL
    return ALL[ALL.index(name) + 1:]


def case(r, s):
    m = r.random()
    return s if m < 0.8 else (s.lower() if m < 0.9 else "".join(q.lower() if r.random() < .5 else q for q in s))


def value(r):
    m = r.random()
    if m < 0.12:
        return 0.0
    if m < 0.2:
        return 1e-9 * r.random()
    return r.uniform(0.001, 1.0)


def rad(r, name, bad=False):
    """[(label, value)] radiative transitions."""
    out = {}
    for s in subset(r, above(name), 1, 9):
        out[case(r, name + s)] = value(r)
    if r.random() < .25:
        lab = name + r.choice("OP")
        if len(lab) == 2:
            out[lab] = value(r)          # KO, KP
            for k in list(out):
                if k != lab and k.upper() == lab + "2":
                    del out[k]
    if len(name) == 2 and r.random() < .3:
        lab = name + r.choice(["P23", "O45", "P45"])
        for k in list(out):
            if k.upper()[:4] == lab[:4]:
                del out[k]
        out[lab] = value(r)
    if r.random() < .4:
        out[r.choice(["TOTAL", "total", "Total"])] = r.choice([0.5, 1.0, 3.0])
    # one spelling per transition
    seen = {}
    for k, v in out.items():
        seen[k.upper()] = (k, v)
    out = list(seen.values())
    if not any(v > 0 and k.upper() != "TOTAL" for k, v in out):
        out.append((name + "M9" if False else name + above(name)[-1], 0.5))
        seen = {}
        for k, v in out:
            seen[k.upper()] = (k, v)
        out = list(seen.values())
    r.shuffle(out)
    return out


def non(r, name):
    """[(label, value)] non radiative transitions."""
    up = above(name)
    out = {}
    for i in range(r.randint(0 if r.random() < .1 else 2, 22)):
        a = r.choice(up if r.random() < .5 else up[:6])
        b = r.choice(up[up.index(a):])
        out["%s-%s%s" % (name, a, b)] = value(r)
    tot = sum(out.values())
    auger = [k for k in out if name[0] not in k.split("-")[1]]
    if 0 < sum(out[k] for k in auger) < 1e-4 * tot:
        # (what the Coster-Kronig transitions leave of the total would be mostly rounding)
        for k in auger:
            out[k] += 0.01
        tot = sum(out.values())
    res = [(case(r, k), v) for k, v in out.items()]
    if r.random() < .6:
        res.append((r.choice(["TOTAL", "total"]), tot * r.uniform(1.01, 2) + 0.01))
    elif not tot > 0:
        res.append(("TOTAL", 1.0))
    r.shuffle(res)
    return res


def consts(r, name):
    keys = ["omega"] + ref.RefShell(name).ckkeys()
    p = [r.random() ** 2 if r.random() < .9 else 0.0 for _ in keys]
    t = (sum(p) + r.random()) or 1.0
    full = {k: v / t for k, v in zip(keys, p)}
    return full
