"""C32: the Python package against the C++ library on the same calls."""
import json, os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from common import _j
import drv, gendata, matgen, shellgen, xrfgen
import c02_hostile as hostile
import c28_specfile, c29_ini, c30_config
RULE = ("one call made through the Python package (arguments as text or bytes, lists, tuples, arrays, dictionaries, defaults or keywords) and in C++; "
        "distinct by operation, argument forms and arguments")
PY = "/opt/fisx/venv/bin/python"
SCRIPT = os.path.join(build.VERIF, "harness", "pydriver.py")
SH = ["K", "L1", "L2", "L3", "M1", "M3", "M5"]
PROJECT = {
    "det.get": lambda r: {"area": r["area"], "diameter": r["diameter"], "distance": r["distance"], "minE": r["eth"], "minI": r["ith"], "nesc": r["nth"],
                          "thickness": r["layer"]["thickness"], "density": r["layer"]["density"]},
    "mat.get": lambda r: {"name": r["name"], "comp": r["comp"]},
    "el.info": lambda r: {"z": r[1]},
    "beam.get": lambda r: r[:2],
    "E.getRadFile": os.path.normpath, "E.getConstFile": os.path.normpath, "E.getNonFile": os.path.normpath,
    "E.families": lambda r: sorted(r, key=lambda x: x[1]),
    "E.familiesV": lambda r: sorted(r, key=lambda x: x[1]),
    "layer.families": lambda r: sorted(r, key=lambda x: x[1]),
    "X.lfamilies": lambda r: sorted(r, key=lambda x: x[1]),
    "E.cEnabled": int, "E.escEnabled": int,
}


def operations():
    import re
    text = open(SCRIPT).read()
    return set(re.findall(r'^    "([\w.]+)": ', text, re.M))


OPS = operations()


class Pair(object):
    """The same commands to both."""
    def __init__(self, c, lib, d):
        self.c = c
        self.C = c.driver("plain", timeout=100)
        self.P = drv.Driver(exe=d, timeout=150, prefix=[PY, SCRIPT, lib], env={"PYTHONDONTWRITEBYTECODE": "1"})
        c.drivers.append(self.P)

    def close(self):
        self.P.close()

    def both(self, cmds):
        """Answers of C++; every answer of Python is compared with them."""
        # a form Python does not have is not sent to C++ either: both keep the same state
        got = self.P.raw(cmds)
        sent = iter(self.C.raw([q for q, g in zip(cmds, got) if "harness" not in g]))
        want = [g if "harness" in g else next(sent) for g in got]
        out = []
        for cmd, w, g in zip(cmds, want, got):
            out.append(w)
            self.judge(cmd, w, g)
        return out

    def judge(self, cmd, w, g):
        c = self.c
        if "harness" in w or "harness" in g:
            c.count("harness_refused")
            return
        op = cmd[0]
        for f in g.get("forms", []):
            c.count("form: " + f)
        c.case((op, tuple(g.get("forms", [])), json.dumps(cmd)[:300]), "answered" if "ok" in w else "refused")
        c.count("op:" + op)
        if "err" in w:
            if "ok" in g:
                c.fail("accepted:" + op, "%s is refused by the library (%s) but Python answers %s" % (_j(cmd), w["err"][1], _j(g["ok"])), {"forms": g.get("forms")}, self.P)
            return
        a = w["ok"]
        if surrogates(a):
            c.count("not_utf8")
            return
        if "err" in g:
            c.fail("raised:" + op, "%s raised %s from Python (forms: %s); C++ answers %s" % (_j(cmd), g["err"], ", ".join(g["forms"]), _j(a)), None, self.P)
            return
        b = g["ok"]
        f = PROJECT.get(op)
        if f:
            a = f(a)
            if f is os.path.normpath and isinstance(b, str):
                b = f(b)
        if op.startswith("tt.get") and isinstance(b, list):
            a = [a[0], a[1], {repr(float(k)): v for k, v in a[2].items()}]
        scale = 0.0
        rel = 1e-9
        if op in ("X.multi", "X.fluo") and cmd[3 if op == "X.multi" else 5]:
            rel, scale = 1e-6, 1e-9 * biggest(a)
        d = diff(b, a, rel, scale)
        if d:
            c.fail("differs:" + op, "%s: Python %s (forms: %s)" % (_j(cmd), d, ", ".join(g["forms"])), {"python": b, "c++": a}, self.P)
            return
        # whole numbers are whole numbers, texts are texts
        if not same_types(a, b):
            c.fail("types:" + op, "%s: Python answers %s where C++ has %s" % (_j(cmd), _j(b), _j(a)), None, self.P)


def surrogates(o):
    if isinstance(o, str):
        return any(0xd800 <= ord(x) < 0xe000 for x in o)
    if isinstance(o, dict):
        return any(surrogates(k) or surrogates(v) for k, v in o.items())
    if isinstance(o, list):
        return any(surrogates(x) for x in o)
    return False


def biggest(o):
    if isinstance(o, dict):
        return max([biggest(v) for v in o.values()] + [0.0])
    if isinstance(o, list):
        return max([biggest(v) for v in o] + [0.0])
    return abs(o) if isinstance(o, float) and o == o and abs(o) != float("inf") else 0.0


def same_types(a, b):
    if isinstance(a, dict):
        return all(same_types(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return all(same_types(x, y) for x, y in zip(a, b))
    if isinstance(a, str):
        return isinstance(b, str)
    return True


# -- ordinary use
def queries(r, R, h, files):
    el = lambda: r.choice(R.order[3:92])
    x = lambda: energy(r, R.el[el()], .5, 150)
    vac = lambda: {s: r.uniform(.1, 1) for s in subset(r, SH, 1, 4)}
    comp = lambda: matgen.composition(r, R.order[3:92])
    mat = lambda: r.choice([el(), "SiO2", "CaSO4(H2O)2", "Alloy1"])
    es = lambda: sorted(x() for _ in range(r.randint(1, 4)))

    def mu(n=None):
        e = sorted(set(round(r.uniform(.5, 80), 3) for _ in range(n or r.randint(3, 8))))
        col = lambda: [r.uniform(.01, 100) for _ in e]
        return [e, col(), col(), col(), [0.0] * len(e)]

    def rad(sh):
        labs = subset(r, [sh + y for y in ["M2", "M3", "M4", "M5", "N1", "N5", "O3"]], 1, 4)
        return [labs, [r.uniform(.01, 1) for _ in labs]]

    def non(sh):
        labs = subset(r, [sh + "-" + y + z for y in ["M2", "M3", "M4"] for z in ["N1", "N3", "O1"]], 1, 4)
        return [labs, [r.uniform(.01, 1) for _ in labs]]
    w = lambda e: [r.choice([1.0, r.uniform(.1, 5)])] * len(e) if r.random() < .5 else [r.uniform(.1, 5) for _ in e]
    exc = lambda: (lambda e: ["E.excv", h, el(), e, [1.0] * len(e) if r.random() < .5 else w(e)])(es())
    esc = lambda: [{el(): 1.0} if r.random() < .5 else comp(), .010, 1e-7, 4, 90.0, 0.0] if r.random() < .6 else [comp(), .02, r.choice([1e-7, 1e-4]), r.choice([2, 4]), r.uniform(20, 90), r.choice([0.0, .01])]
    pe = lambda: (lambda v, e: ["E.escape", h, v[0], e] + v[1:])(esc(), r.uniform(3, 60))
    pu = lambda: (lambda v, e: ["E.escUpdate", h, v[0], e] + v[1:])(esc(), [r.uniform(3, 60) for _ in range(2)])
    sh = lambda: r.choice(["L1", "L2", "L3", "M1"])
    beam = lambda e: ["beam.set", "b", e, w(e), [], []]
    Q = [lambda: ["E.info", h, el()], lambda: ["E.names", h], lambda: ["E.emitted", h, el(), r.choice([1000.0, x()])], lambda: ["E.non", h, el(), r.choice(SH)], lambda: ["E.rad", h, el(), r.choice(SH)], lambda: ["E.vac", h, el(), x()],
         lambda: ["E.cascade", h, el(), vac()], lambda: ["E.fromvac", h, el(), vac(), r.choice([0, 1]), r.choice([0, 1])], lambda: ["E.fromvac", h, el(), vac(), 1, 1], lambda: ["E.const", h, el(), r.choice(SH)],
         lambda: ["E.getConstFile", h, r.choice("KLM")], lambda: ["E.getRadFile", h, r.choice("KLM")], lambda: ["E.getNonFile", h, r.choice("KLM")], lambda: ["E.muall", h, el()], lambda: ["E.muv", h, mat(), es()], lambda: ["E.mu", h, mat(), x()],
         lambda: ["E.mumv", h, comp(), es(), 0], lambda: ["E.mum", h, comp(), x(), 0], lambda: ["E.comp", h, mat()], exc, exc, lambda: ["E.exc", h, el(), x(), r.choice([1.0, r.uniform(.1, 5)])], lambda: ["E.families", h, mat(), x()],
         lambda: ["E.familiesV", h, [el() for _ in range(r.randint(1, 3))], x()], lambda: ["E.bind", h, el()], pe, pe, lambda: ["E.cSize", h, el()], lambda: ["E.cEnabled", h, el()], lambda: ["E.escEnabled", h],
         lambda: ["E.materials", h], lambda: ["mat.new", "m", r.choice(["Alloy1", "New"]), r.choice([1.0, r.uniform(1, 20)]), 1.0, r.choice(["", "note"])], lambda: ["mat.compM", "m", comp()],
         lambda: (lambda k: ["mat.compV", "m", list(k), list(k.values())])(comp()), lambda: ["mat.get", "m"], lambda: ["mat.setName", "m", r.choice(["Alloy1", "Steel", "Fe", "SiO2"])], lambda: ["E.addMaterial", h, "m", r.choice([0, 0, 1])], lambda: ["E.removeMaterials", h],
         lambda: ["E.ccEnable", h, el(), r.choice([0, 1])], lambda: ["E.ccEmpty", h, el()], lambda: ["E.cEnable", h, el(), r.choice([0, 1])], lambda: ["E.cFill", h, el(), es()], lambda: ["E.cUpdate", h, el(), es()], lambda: ["E.cClear", h, el()],
         lambda: ["E.escEnable", h, r.choice([0, 1])], pu, lambda: ["E.setMu", h, el()] + mu(),
         lambda: ["el.new", "el", el(), r.randint(1, 99)], lambda: ["el.info", "el"], lambda: ["el.setName", "el", el()], lambda: ["el.setZ", "el", r.randint(1, 99)], lambda: ["el.bindm", "el", {"K": 7.1, "L1": .85, "L2": .72, "L3": .71, "M1": .09, "M2": .05, "M3": .05, "M4": .01, "M5": .008}],
         lambda: ["el.bind", "el"], lambda: ["el.setMu", "el"] + mu(), lambda: ["el.muall", "el"], lambda: ["el.mu", "el", x()], lambda: ["el.muv", "el", es()], lambda: (lambda s: ["el.radv", "el", s] + rad(s))(sh()), lambda: (lambda s: ["el.nonv", "el", s] + non(s))(sh()),
         lambda: ["el.rad", "el", sh()], lambda: ["el.non", "el", sh()], lambda: ["el.setConst", "el", "L1", {"omega": r.uniform(0, .3), "f12": r.uniform(0, .3)}], lambda: ["el.const", "el", sh()], lambda: ["el.fromvac", "el", {r.choice(["L1", "L3"]): 1.0}],
         lambda: ["shell.new", "sh", "L1"], lambda: ["shell.radv", "sh"] + rad("L1"), lambda: ["shell.nonv", "sh"] + non("L1"), lambda: ["shell.const", "sh", {"omega": r.uniform(0, .3), "f13": r.uniform(0, .3)}], lambda: ["shell.getConst", "sh"], lambda: ["shell.rad", "sh"],
         lambda: ["shell.non", "sh"], lambda: ["shell.fluo", "sh"], lambda: ["shell.auger", "sh"], lambda: ["shell.ck", "sh"], lambda: ["shell.transfer", "sh", r.choice(["L2", "L3", "M1"])],
         lambda: ["epdl.setb", "ep", r.randint(1, 99), {"K": r.uniform(5, 50), "L1": r.uniform(1, 4)}], lambda: ["epdl.getb", "ep", r.randint(1, 99)], lambda: ["epdl.mu", "ep", r.randint(1, 99), x()], lambda: ["epdl.muv", "ep", r.randint(1, 99), es()],
         lambda: ["epdl.muall", "ep", r.randint(1, 99)], lambda: ["epdl.pw", "ep", r.randint(1, 99), x()], lambda: ["epdl.pwv", "ep", r.randint(1, 99), es()],
         lambda: ["layer.new", "layer", mat(), r.uniform(.5, 10), 10 ** r.uniform(-5, -1), r.choice([1.0, 1.0, .7])], lambda: ["layer.matM", "layer", "m"], lambda: ["layer.comp", "layer", h], lambda: ["layer.trans", "layer", x(), h, r.choice([90.0, 45.0])],
         lambda: ["layer.transv", "layer", es(), h, r.choice([90.0, 30.0])], lambda: ["layer.families", "layer", x(), h],
         lambda: ["det.new", "det", mat(), r.uniform(.5, 10), 10 ** r.uniform(-3, -1), r.choice([1.0, .8])], lambda: ["det.area", "det", r.uniform(.1, 1)], lambda: ["det.diameter", "det", r.uniform(.1, 1)], lambda: ["det.distance", "det", r.uniform(.1, 5)],
         lambda: ["det.nesc", "det", r.choice([2, 4, 6])], lambda: ["det.get", "det"], lambda: ["det.escape", "det", r.uniform(3, 60), h, r.choice(["", "", "one"]), r.choice([1, 1, 0])], lambda: ["det.trans", "det", x(), h, r.choice([90.0, 60.0])],
         lambda: ["det.transv", "det", es(), h, 90.0], lambda: ["det.comp", "det", h], lambda: beam(es()), lambda: beam([x()]), lambda: ["beam.get", "b"],
         lambda: (lambda e: ["tt.setVec", "tt", e, [r.random() for _ in e], r.choice(["", "t"]), r.choice(["", "c"])])(sorted(set(es()))), lambda: (lambda e: ["tt.setMap", "tt", [[k, r.random()] for k in e], r.choice(["", "u"]), r.choice(["", "d"])])(sorted(set(es()))),
         lambda: ["tt.name", "tt", "nm"], lambda: ["tt.comment", "tt", "cm \u00b5"], lambda: ["tt.get", "tt"], lambda: ["tt.at", "tt", x()], lambda: ["tt.atv", "tt", es()],
         lambda: ["math.deBoerL0", r.uniform(.1, 50), r.uniform(.1, 50), r.uniform(.1, 9), *r.choice([[0.0, 0.0], [r.uniform(.1, 5), r.uniform(.001, .1)]])], lambda: ["math.E1", x()], lambda: ["math.En", r.randint(1, 5), x()], lambda: ["math.erf", r.random()],
         lambda: ["math.erfc", r.random()], lambda: ["math.deBoerD", r.uniform(.01, 9)], lambda: ["math.deBoerX", *[r.uniform(.1, 3) for _ in range(6)], r.choice([0.0, r.uniform(.1, 3)])], lambda: ["version"],
         lambda: ["ini.new", "ini", files["ini"]], lambda: ["ini.sections", "ini"], lambda: ["spec.new", "spec", files["spec"]], lambda: ["spec.n", "spec"], lambda: ["spec.labels", "spec", r.choice([0, 0, 1, 5])], lambda: ["spec.data", "spec", r.choice([0, 0, 1, 5])],
         # refused by the library
         lambda: ["E.comp", h, "Nothing"], lambda: ["E.mu", h, "Fe", -1.0], lambda: ["el.rad", "el", "Z9"], lambda: ["E.families", h, "Zz", 5.0], lambda: ["layer.transv", "bad", [5.0], h, 90.0], lambda: ["layer.families", "bad", 5.0, h], lambda: ["layer.comp", "bad", h],
         lambda: ["det.trans", "baddet", 5.0, h, 90.0], lambda: ["det.escape", "baddet", 5.0, h, "", 1], lambda: ["ini.new", "ini2", "/nonexistent"], lambda: ["spec.new", "spec2", "/nonexistent"], lambda: ["E.info", h, "Zz"], lambda: ["shell.new", "sh2", "X"],
         lambda: ["X.read", "X", "/nonexistent"], lambda: ["X.new", "X2", "/nonexistent"], lambda: ["tt.setVec", "tt", [1.0, 2.0], [.5], "", ""], lambda: ["det.distance", "det", -1.0], lambda: ["math.En", -1, 1.0], lambda: ["epdl.mu", "ep", 26, -1.0],
         lambda: ["E.constFile", h, "K", "/nonexistent"], lambda: ["E.radFile", h, "K", "/nonexistent"], lambda: ["E.muFile", h, "/nonexistent"], lambda: ["E.new", "E2", "/nonexistent"], lambda: ["epdl.new", "ep2", "/nonexistent"]]
    out = []
    for f in r.sample(Q, len(Q)):
        q = f()
        assert q[0] in OPS, q
        out.append(q)
        if q[0] == "ini.sections":
            out += [["ini.section", "ini", s] for s in subset(r, files["sections"], 1, 4)]
        if q[0] == "E.addMaterial":
            out.append(["E.comp", h, "Alloy1"])
    return out


BASE = [["mat.new", "m", "Alloy1", 1.0, 1.0, ""], ["mat.compM", "m", {"Fe": .7, "Cr": .3}], ["el.new", "el", "Fe", 26], ["el.bindm", "el", {"K": 7.1, "L1": .85, "L2": .72, "L3": .71, "M1": .09, "M2": .05, "M3": .05}],
        ["shell.new", "sh", "L1"], ["layer.new", "layer", "SiO2", 2.2, .01, 1.0], ["layer.new", "bad", "Nothing", 1.0, 1.0, 1.0], ["det.new", "det", "Si", 2.33, .05, 1.0], ["det.new", "baddet", "Nothing", 1.0, 1.0, 1.0],
        ["beam.new", "b"], ["tt.new", "tt"], ["X.new", "X"]]


def setup(c, P, r, G, h, files):
    """A whole configuration and its rates."""
    cfg = G.config(nlayers=3, nray=3, nmax=2, thick=-1, thin=-4)
    cmds = [q for q in G.commands(cfg, "X") if q[0] in OPS]
    for q in cmds:
        if q[0] == "X.beam":
            n = len(q[2])
            q[4], q[5] = r.choice([([1] * n, [0.0] * n), ([1], [0.0])])
        if q[0] in ("X.filters", "X.attenuators", "X.sample") and q[2] and r.random() < .55:
            # a layer given twice, side by side or apart
            k = r.choice(q[2])
            q[2] = list(q[2])
            q[2].insert(r.choice([r.randint(0, len(q[2])), q[2].index(k), q[2].index(k)]), k)
            if q[0] == "X.sample" and len(q) > 3:
                q[3] = 0
    P.both(cmds)
    if r.random() < .2:
        P.both([["X.single", "X", r.uniform(5, 50), 0.0]])
    if r.random() < .2:
        P.both([["X.read", "X", files["cfg"]]])
    if r.random() < .1:
        P.both([["X.new", "X", files["cfg"]]])
    es = [round(r.uniform(5, 60), 3) for _ in range(r.randint(1, 3))]
    P.both([["beam.new", "ob"], ["beam.set", "ob", sorted(set(es)), [1.0] * len(set(es)), [], []]])
    req = G.requests(cfg, 3, .1)
    els, fams, ls = [e for e, f, l in req], [f for e, f, l in req], [l for e, f, l in req]
    lay = lambda: "layer" if r.random() < .5 else cfg_layer(r, cfg)
    out = [["X.geff", "X", k] for k in range(-1, len(cfg["sample"]))]
    out += [["X.lcomp", "X", lay(), h], ["X.lmu", "X", lay(), r.uniform(2, 60), h], ["X.lmuv", "X", lay(), [5.0, r.uniform(6, 60)], h], ["X.ltrans", "X", lay(), r.uniform(2, 60), h, r.choice([90.0, 45.0])],
            ["X.ltransv", "X", lay(), [5.0, 20.0], h, r.choice([90.0, 45.0])], ["X.lfamilies", "X", lay(), r.uniform(5, 60), h]]
    if "bad" not in str(req):
        out += [["X.lfamilies", "X", "bad", 30.0, h], ["X.lmu", "X", "bad", 30.0, h]]
    for k in range(2):
        ob = r.choice([None, None, "ob"])
        deep = r.choice([0, 0, 1, 2])
        m = r.random()
        out.append(["X.fluo", "X", h, els, ls, fams, deep, r.choice([0, 1]), r.choice([0, 1]), r.choice([0.0, 0.0, 1e-3]), ob])
        out.append(["X.fluo", "X", h, els[:1], ls[:1], fams[:1], deep, 1, 0, 0.0, ob])
        out.append(["X.fluo", "X", h, els[:1], [0], ["K"], 0, 1, 0, 0.0, ob])
        out.append(["X.multi", "X", h, ["%s %s" % (e, f) + (" %d" % l if l >= 0 else "") for e, f, l in req], deep, r.choice([0, 1]), r.choice([0, 1]), r.choice([0.0, 1e-3]), ob])
        out.append(["X.multi", "X", h, ["%s %s" % (els[0], fams[0])], 0, 1, 0, 0.0, ob])
    out += [["X.multi", "X", h, ["garbage"], 0, 1, 0, 0.0, None], ["X.fluo", "X", h, ["Zz"], [0], ["K"], 0, 1, 0, 0.0, None], ["X.fluo", "X", h, [els[0]], [99], ["K"], 0, 1, 0, 0.0, None]]
    want = P.both(out)
    c.count("setups")
    if r.random() < .5:
        # the same questions from several Python threads (the calculation runs without the interpreter lock)
        idx = [i for i, q in enumerate(out) if q[0] in ("X.multi", "X.fluo", "X.ltransv", "X.geff")]
        idx = idx + r.sample(idx, len(idx) // 2)
        n = r.choice([2, 4])
        got = P.P.raw([["par", n, [out[i] for i in idx]]])[0]["ok"]
        for i, g in zip(idx, got):
            P.judge(out[i], want[i], g)
        c.count("answers_from_threads", len(idx))
    if cfg["sample"]:
        # the same layer again and again, as one object or several
        l = ["Al", 2.7, 10 ** r.uniform(-4, -2), 1.0]
        for op in r.sample(["X.filters", "X.attenuators"], 2):
            ls2 = [l] * r.choice([2, 2, 3])
            if r.random() < .4:
                ls2.insert(r.randint(1, len(ls2)), ["C", 1.4, .002, 1.0])
            P.both([[op, "X", ls2], ["X.fluo", "X", h, els, ls, fams, 0, 1, 0, 0.0, None]])


def cfg_layer(r, cfg):
    l = r.choice(cfg["sample"])
    s = [l["mat"], l["density"], l["thickness"], l["funny"]]
    return s + [l["mat"]] if l["own"] else s


# -- hostile use
def hostile_story(c, P, A, sigs, h, n):
    r = c.rng
    A.level = r.choice([.05, .15, .3, .6])
    ren = {"sh": "sh"}
    cmds = []
    for k in range(3):
        s = str(k)
        cmds += [["beam.new", s], ["beam.set", s, [20.0, 10.0], [1.0, 2.0], [], []], ["tt.new", s], ["tt.setVec", s, [1.0, 10.0], [.5, .9], "t", "c"], ["shell.new", s, r.choice(hostile.SHELLS)], ["el.new", s, r.choice(hostile.ELS), r.randint(1, 99)],
                 ["mat.new", s, "m%d" % k, 1.0, .01, "c"], ["mat.compV", s, ["Fe", "O"], [.5, .5]], ["layer.new", s, r.choice(hostile.ELS + ["m1", "H2O"]), 1.0, .01, 1.0], ["det.new", s, "Si", 2.33, .05, 1.0], ["X.new", s],
                 ["X.beam", s, [20.0], [1.0], [1], [0.0]], ["X.sample", s, [["Fe", 5.0, .001], ["SiO2", 2.0, .01]], 0], ["X.geometry", s, 45.0, 45.0, 90.0], ["X.detector", s, s]]
    P.both(cmds)
    for q in (hostile.make(A, s, h) for s in r.choices(sigs, [s[1] for s in sigs], k=n)):
        q = fit(q)
        if q is not None:
            P.both([q])
            c.count("hostile_calls")


def fit(q):
    """The call as Python can make it, or None."""
    op = q[0]
    if op == "beam.set":
        q[4], q[5] = [], []
    if op in ("ini.new", "spec.new", "epdl.new", "el.new", "mat.new") and len(q) < 3:
        return None
    if op in ("tt.new", "E.new") and len(q) > 2:
        return None
    if op in ("X.new", "E.new") and q[-1] == "":
        # no name means the default in Python
        return None
    if op == "ini.section":
        return q[:3]
    if op in ("X.lcomp", "X.lmu", "X.lmuv", "X.ltrans", "X.ltransv", "X.lfamilies") and isinstance(q[-1], dict):
        q = q[:-1]
    if op == "el.setMu":
        q = q[:6]
    if op in ("E.mum", "E.mumv"):
        q[-1] = 0
    if op in ("E.fromvac", "det.escape") or op == "el.fromvac":
        if op == "el.fromvac":
            q[3], q[4] = 1, 1
        if op == "det.escape":
            q[4] = 1 if q[4] else 0
    if op == "tt.setMap" and any(k != k for k, v in q[2]):
        return None
    if op == "X.fluo" and (not q[3] or len(q[3]) != len(q[5]) or not (len(q[4]) == 1 or len(q[4]) == len(q[3]))):
        return None       # Python names this mismatch itself
    if op == "X.beam" and not q[2]:
        return None
    if op == "E.excv" and not q[3]:
        return None
    return q


def worker(c, w):
    r = c.rng
    t0 = time.time()
    d = c.datadir(1 + c.seed % 3)
    P = Pair(c, c.extra["lib"], d)
    mode = ["default", "pymca"][w % 2]
    lab = Lab(c, mode, driver=P.C, handle="E")
    P.P.call(*(["E.new", "E", d] if mode == "default" else ["E.new", "E", d, 1]))
    P.both([["epdl.new", "ep", d]])
    G = xrfgen.Gen(lab, r)
    for name in G.registered:
        P.P.call("mat.new", "alloy", name, 2.0, .1, "")
        P.P.call("mat.compM", "alloy", lab.R.materials[name]["comp"])
        P.P.call("E.addMaterial", "E", "alloy", 1)
    A = hostile.Args(r, ["/nonexistent", d])
    sigs = [s for s in hostile.signatures() if s[0] in OPS and not s[0].startswith(("epdl.", "E.new"))]
    budget = c.size(22, 800)
    n = 0
    while n < 2 or time.time() - t0 < budget:
        files = make_files(c, r, G, w)
        P.both(BASE)
        for q in queries(r, lab.R, "E", files):
            P.both([q])
        setup(c, P, r, G, "E", files)
        if n % 4 == 3 or r.random() < .3:
            hostile_story(c, P, A, sigs, "E", c.size(60, 150))
        if n % 12 == 5:
            q = r.choice([["E.new", "E", d], ["E.new", "E", d, 1], ["E.new", "E", d, os.path.join(d, "BindingEnergies.dat"), os.path.join(d, "XCOM_CrossSections.dat")]])
            P.both([q])
            P.both([["epdl.new", "ep", d]])
            c.count("libraries_loaded_again")
        n += 1
        if len(P.C.log) > 40000:
            break
    c.count("rounds", n)


def make_files(c, r, G, w):
    secs, cont, text = c29_ini.make(r)
    ini = c.write("p%d.ini" % w, text)
    scans, st = c28_specfile.make(r)
    spec = c.write("p%d.spec" % w, st)
    cfg = c.write("p%d.cfg" % w, c30_config.ini(r, c30_config.setup(r, G)))
    return {"ini": ini, "spec": spec, "cfg": cfg, "sections": list(secs) + ["none"]}


def main(c):
    build.build("plain")
    c.extra["lib"] = build.build_python()
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)
    c.extra.pop("lib", None)
    ops = {k[3:]: c.counts.pop(k) for k in list(c.counts) if k.startswith("op:")}
    forms = {k[6:]: c.counts.pop(k) for k in list(c.counts) if k.startswith("form: ")}
    c.extra["calls_per_operation"], c.extra["calls_per_argument_form"] = ops, forms
    never = sorted(OPS - set(ops) - {"ping"})
    c.extra["operations_never_called"] = never
    c.count("operations", len(ops))


if __name__ == "__main__":
    Check("C32", RULE).run(main)
