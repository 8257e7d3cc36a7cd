"""Threads of one Python process that query the same objects of the package, against the answers of one thread.

usage: pythreads.py PACKAGE_DIR DATA_DIR SEED SECONDS RESULT_FILE."""
import json, os, random, sys, threading, time
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import fisx

data, seed, seconds = sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
r = random.Random(seed)
E = fisx.Elements(data)
ELS = ["Al", "Si", "Ti", "Cr", "Fe", "Ni", "Cu", "Zn", "Mo", "Sn", "Ba", "Gd", "W", "Au", "Pb"]
for i in range(3):
    m = fisx.Material("Mix%d" % i, 2.0, .01, "")
    m.setComposition(dict((e, r.uniform(.1, 1)) for e in r.sample(ELS, 3)))
    E.addMaterial(m, 0)
NAMES = ELS + ["SiO2", "Fe2O3", "Mix0", "Mix1", "Mix2"]


def describe(r):
    """A setup, as data."""
    layer = lambda: [r.choice(NAMES), r.uniform(.5, 9), 10 ** r.uniform(-4, -2), 1.0]
    return {"beam": [[r.uniform(8, 60) for _ in range(r.randint(1, 2))]], "sample": [layer() for _ in range(r.randint(1, 3))],
            "att": [layer() for _ in range(r.randint(0, 1))], "det": r.random() < .5, "geo": [r.uniform(20, 80), r.uniform(20, 80), 90.0]}


def build(d):
    x = fisx.XRF()
    es = d["beam"][0]
    x.setBeam(es, [1.0] * len(es), [1] * len(es), [0.0] * len(es))
    x.setSample(d["sample"])
    if d["att"]:
        x.setAttenuators(d["att"])
    if d["det"]:
        det = fisx.Detector("Si", 2.33, .05, 1.0)
        det.setActiveArea(.5)
        det.setDistance(3.0)
        x.setDetector(det)
    x.setGeometry(*d["geo"])
    return x


def queries(r, d):
    """(method, arguments) on a setup."""
    out = []
    comp = []
    for l in d["sample"]:
        comp += sorted(E.getComposition(l[0]))
    for _ in range(3):
        e = r.choice(comp)
        f = r.choice(["K", "L", "L3", "M"])
        sec = r.choice([0, 0, 1, 2])
        out.append(("getMultilayerFluorescence", (["%s %s" % (e, f)], E, sec, r.randint(0, 1), r.randint(0, 1))))
        out.append(("getMultilayerFluorescence", ([("%s %s 0" % (e, f)).encode()], E, 0, 1, 1, 0.0, fisx.Beam())))
        out.append(("getFluorescence", ([e], E, [r.choice([-1, 0])], [f], sec)))
        out.append(("getFluorescence", (e, E)))
    out.append(("getMultilayerFluorescence", (["Nothing at all here"], E)))
    out.append(("getMultilayerFluorescence", (["%s K %d" % (comp[0], 77)], E)))
    out.append(("getFluorescence", (["Zz"], E)))
    out.append(("getFluorescence", ([comp[0]], E, 0, ["Q"])))
    out.append(("getGeometricEfficiency", (0,)))
    return out


def library(r):
    out = []
    for _ in range(4):
        n, x = r.choice(NAMES), r.uniform(2, 90)
        e = r.choice(ELS)
        out += [("getMassAttenuationCoefficients", (n, x)), ("getMassAttenuationCoefficients", (n, [x, x / 2])), ("getComposition", (n,)), ("getExcitationFactors", (e, x, 1.0)),
                ("getEmittedXRayLines", (e, x)), ("getPeakFamilies", (n, x)), ("getBindingEnergies", (e,)), ("getEscape", ({e: 1.0}, x)), ("getComposition", ("N0 such",)),
                ("getMassAttenuationCoefficients", ({e: .5, "SiO2": .5}, x))]
    return out


def answer(o, q):
    try:
        return repr(getattr(o, q[0])(*q[1]))
    except BaseException as e:
        return "refused %s" % isinstance(e, Exception)


old = sys.getswitchinterval()
t0 = time.time()
res = {"rounds": 0, "calls": 0, "refused": 0, "switches": 0, "bad": [], "threads": []}
while time.time() - t0 < seconds or not res["rounds"]:
    res["rounds"] += 1
    descs = [describe(r) for _ in range(r.randint(1, 3))]
    sys.setswitchinterval(old)
    objs = [build(d) for d in descs]
    work = [(i, q) for i, d in enumerate(descs) for q in queries(r, d)] + [(None, q) for q in library(r)]
    alone = [answer(E if i is None else build(descs[i]), q) for i, q in work]
    res["refused"] += sum(a.startswith("refused") for a in alone)
    n = r.choice([2, 3, 6])
    own = r.random() < .4
    order = [r.sample(range(len(work)), len(work)) for _ in range(n)]
    trace, bad = [], []
    gate = threading.Barrier(n)

    def run(t):
        gate.wait()
        mine = {}
        for k in order[t]:
            i, q = work[k]
            if i is None:
                o = E
            elif own:
                o = mine.get(i) or mine.setdefault(i, build(descs[i]))
            else:
                o = objs[i]
            trace.append(t)
            a = answer(o, q)
            trace.append(t)
            if a != alone[k]:
                bad.append([t, q[0], [repr(z)[:80] for z in q[1] if z is not E], descs[i] if i is not None else None, a[:300], alone[k][:300]])
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    ts = [threading.Thread(target=run, args=(t,)) for t in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if len(trace) != 2 * n * len(work):
        bad.append([-1, "thread", [], None, "%d of %d steps" % (len(trace), 2 * n * len(work)), "a thread ended early"])
    res["calls"] += n * len(work)
    res["switches"] += sum(a != b for a, b in zip(trace, trace[1:]))
    res["threads"].append([n, hash(tuple(trace)) & 0xffffffff])
    res["bad"] += bad[:3]
    if len(res["bad"]) > 5:
        break
with open(sys.argv[5], "w") as f:
    json.dump(res, f)
