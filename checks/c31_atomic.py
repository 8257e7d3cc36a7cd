"""C31: a rejected operation leaves everything as it was."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import shellgen, matgen, xrfgen
RULE = ("random histories of every kind of object with unacceptable operations in between: a snapshot of all that can be asked from the object taken before and after "
        "each refusal must be identical, and a twin that never saw the refused operations must give the same answers at the end; a case is one refusal with its snapshots")
INF = float("inf")
NEG = [-1.0, -0.5, -1e-9, -1e9]


def pos(r):
    return r.choice([r.uniform(.01, 10), 10 ** r.uniform(-4, 3), 1.0])


class World(object):
    """One kind of object; '@' stands for its handle."""
    def __init__(self, c, D, r, lab):
        self.c, self.D, self.r, self.lab = c, D, r, lab

    def new(self):
        return []

    def snap(self):
        return []


class Beams(World):
    name = "beam"

    def new(self):
        return [["beam.new", "@"]] + self.valid()

    def lists(self):
        r = self.r
        n = r.randint(1, 6)
        return [[r.uniform(1, 90) for _ in range(n)], [pos(r) for _ in range(n)], [r.choice([0, 1]) for _ in range(n)], [pos(r) for _ in range(n)]]

    def valid(self):
        r = self.r
        return [r.choice([["beam.set", "@"] + self.lists(), ["beam.single", "@", pos(r), 0.0], ["beam.set1", "@", self.lists()[0]]])]

    def bad(self):
        r = self.r
        t = self.lists()
        while len(t[0]) < 3:
            t = self.lists()
        k = r.randint(1, 3)
        t[k] = t[k][:r.randint(2, len(t[0]) - 1)]
        return ["beam.set", "@"] + t

    def snap(self):
        return [["beam.get", "@"], ["beam.rays", "@"], ["beam.print", "@"]]


class Tables(World):
    name = "table"

    def new(self):
        return [["tt.new", "@"] + self.r.choice([[], ["name", "comment"], ["n", ""]])] + self.valid()

    def points(self):
        r = self.r
        es = sorted(set(pos(r) for _ in range(r.randint(1, 6))))
        return es, [r.random() for _ in es]

    def valid(self):
        e, t = self.points()
        return [self.r.choice([["tt.setMap", "@", [list(p) for p in zip(e, t)], "", ""], ["tt.setVec", "@", e, t, "", ""]])]

    def bad(self):
        r = self.r
        e, t = self.points()
        m = r.randrange(7)
        name = comment = ""
        if m == 0:
            e[r.randrange(len(e))] = r.choice(NEG)
            if len(e) > 1:
                e.sort()
        elif m == 1:
            t[r.randrange(len(t))] = r.choice(NEG)
        elif m == 2:
            t = t + [.5]
        elif m == 3:
            e = e + [e[-1] + 1]
        elif m == 4:
            e, t = e + [e[0] / 2], t + [.5]
        elif m == 5:
            name = "other"
        else:
            comment = "other"
            name = r.choice(["", "x"])
        if m in (2, 3, 4) or r.random() < .5:
            return ["tt.setVec", "@", e, t, name, comment]
        return ["tt.setMap", "@", [list(p) for p in zip(e, t)], name, comment]

    def snap(self):
        return [["tt.get", "@"], ["tt.atv", "@", [.001, .01, .1, 1., 2.5, 7., 10., 33., 100., 1e4]]]


class Shells(World):
    name = "shell"

    def new(self):
        self.sh = self.r.choice(SHELLS)
        out = [["shell.new", "@", self.sh]]
        for _ in range(3):
            out += self.valid()
        return out

    def valid(self):
        r = self.r
        m = r.randrange(3)
        if m == 0:
            t = shellgen.rad(r, self.sh)
            return [["shell.radm", "@", dict(t)] if r.random() < .5 else ["shell.radv", "@", [k for k, v in t], [v for k, v in t]]]
        if m == 1 and self.sh != "M5":
            t = shellgen.non(r, self.sh)
            return [["shell.nonm", "@", dict(t)] if r.random() < .5 else ["shell.nonv", "@", [k for k, v in t], [v for k, v in t]]]
        return [["shell.const", "@", shellgen.consts(r, self.sh)]]

    def bad(self):
        r = self.r
        m = r.randrange(6)
        t = shellgen.rad(r, self.sh)
        u = shellgen.non(r, self.sh) if self.sh != "M5" else [("M5-N1N2", .5), ("TOTAL", 1.0)]
        rad = r.random() < .5
        x = t if rad else u
        f = "shell.rad" if rad else "shell.non"
        ks, vs = [k for k, v in x], [v for k, v in x]
        if m == 0:
            return [f + "v", "@", ks, vs[:-1] if r.random() < .5 else vs + [.1]]
        if m == 1:
            vs[r.randrange(len(vs))] = r.choice(NEG)
            return [f + "v", "@", ks, vs] if r.random() < .5 else [f + "m", "@", dict(zip(ks, vs))]
        if m == 2:
            bad = r.choice(["XX", "Q1", "K", "", "L1M", "KZ9", "K-L", "K-L1", "M5-", "K-L1L2L3", "L2L1", "garbage", "-", "KL"])
            k = r.randrange(len(ks) + 1)
            ks, vs = ks[:k] + [bad] + ks[k:], vs[:k] + [.1] + vs[k:]
            return [f + "v", "@", ks, vs] if r.random() < .5 else [f + "m", "@", dict(zip(ks, vs))]
        if m == 3:
            return [f + "m", "@", {k: 0.0 for k in ks}]
        d = shellgen.consts(r, self.sh)
        if m == 4:
            d[r.choice(sorted(d))] = r.choice(NEG + [1.5, 7.0])
            if r.random() < .3:
                d["f99"] = .1
        else:
            d[r.choice(["garbage", "f00", "omega2", "OMEGA", "f21", ""])] = .1
        return ["shell.const", "@", d]

    def snap(self):
        return [["shell." + q, "@"] for q in ("rad", "non", "getConst", "fluo", "auger", "ck", "yield")] + \
               [["shell.transfer", "@", s] for s in ("L1", "L3", "M1", "M4", "M5", "N1")]


class Element(World):
    name = "element"

    def new(self):
        self.el = self.r.choice(["Fe", "Pb", "Sn", "Au", "Ca", "O", "U", "W", "Xe", "Gd"])
        out = [["el.from", "@", self.lab.h, self.el]]
        if self.r.random() < .4:
            out += [["el.cEnable", "@", 1], ["el.cFill", "@", [5., 10., 20.]]]
        if self.r.random() < .4:
            out += [["el.ccEnable", "@", 1], ["el.ccFill", "@"]]
        return out + self.valid()

    def valid(self):
        r = self.r
        e = self.lab.R.el[self.el]
        s = r.choice([s for s in SHELLS if e.binding.get(s, 0) > 0] or ["K"])
        m = r.randrange(8)
        if m == 0:
            return [["el.setMass", "@", pos(r)]]
        if m == 1:
            return [["el.setDensity", "@", pos(r)]]
        if m == 2:
            return [["el.setConst", "@", s, shellgen.consts(r, s)]]
        if m == 3:
            return [["el.radm", "@", s, dict(shellgen.rad(r, s))]]
        if m == 4:
            import c13_usermu
            return [["el.setMu", "@"] + list(c13_usermu.supplied(r, e))]
        if m == 5:
            xs = sorted(set(pos(r) for _ in range(4)))
            return [["el.setTotal", "@", [x for x in e.grid[::7]], [1.0 + 1 / x for x in e.grid[::7]]]]
        if m == 6:
            return [["el.cUpdate", "@", [7.0, 33.0]], ["el.ccEnable", "@", r.choice([0, 1])]]
        return [["el.setLong", "@", "long name"]]

    def bad(self):
        r = self.r
        e = self.lab.R.el[self.el]
        s = r.choice(SHELLS)
        m = r.randrange(16)
        ns = ["N9", "X", "", "Q", "k", "L4", "M6", "KK", "N1", "all"]
        if m == 0:
            return ["el.setMass", "@", r.choice(NEG + [0.0])]
        if m == 1:
            return ["el.setDensity", "@", r.choice(NEG + [0.0])]
        if m == 2:
            b = dict(e.binding)
            b[r.choice(["X1", "garbage", "", "K"])] = r.choice(NEG)
            return ["el.bindm", "@", b]
        if m == 3:
            return ["el.bindv", "@", ["K", "L1", "L2"], [e.binding.get("K", 1), .5][:r.choice([1, 2])]]
        if m == 4:
            import c13_usermu
            return ["el.setMu", "@"] + c13_usermu.spoil(r, c13_usermu.supplied(r, e))[1]
        if m == 5:
            return ["el.setTotal", "@"] + r.choice([[[1.0, 2.0], [1.0]], [[], []], [[2.0, 1.0], [1.0, 1.0]], [[1.0], [1.0, 2.0]], [[-1.0, 2.0], [1.0, 1.0]]])
        if m == 6:
            return ["el.setPartial", "@", r.choice([s] + ns)] + r.choice([[[1.0, 2.0], [1.0]], [[2.0, 1.0], [1.0, 1.0]], [[1.0], [1.0, 2.0]], [[], [1.0]]])
        if m == 7:
            return ["el.radm", "@", r.choice(ns), dict(shellgen.rad(r, "K"))]
        if m == 8:
            return ["el.nonm", "@", r.choice(ns), dict(shellgen.non(r, "K"))]
        if m == 9:
            return ["el.setConst", "@", r.choice(ns), shellgen.consts(r, "L1")]
        if m == 10:
            d = shellgen.consts(r, s)
            d[r.choice(["x", "f00", sorted(d)[0]])] = -3.0
            return ["el.setConst", "@", s, d]
        if m == 11:
            t = shellgen.rad(r, s)
            return ["el.radv", "@", s, [k for k, v in t], [v for k, v in t][:-1]]
        if m == 12:
            t = shellgen.rad(r, s)
            return ["el.radm", "@", s, dict(t + [(s + "Z9", -.1)])]
        if m == 13:
            t = shellgen.non(r, s) if s != "M5" else [("M5-N1N2", .1)]
            return ["el.nonv", "@", s, [k for k, v in t], [v for k, v in t] + [.1]]
        if m == 14:
            return r.choice([["el.cFill", "@", [5.0, -1.0]], ["el.cUpdate", "@", [12.5, 0.0]], ["el.cFill", "@", [1.0 + k * 1e-3 for k in range(10001)]]])
        return r.choice([["el.mu", "@", -1.0], ["el.rad", "@", "Z"], ["el.const", "@", "N9"], ["el.lines", "@", "garbage"], ["el.exc", "@", -5.0, 1.0],
                         ["el.cascade", "@", {"Z": 1.0}], ["el.fromvac", "@", {"garbage": 1.0}, 1, 1], ["el.vac", "@", -1.0], ["el.setName", "@", ""], ["el.setZ", "@", -1],
                         ["el.excv", "@", [5.0, 6.0], [1.0]], ["el.tenergy", "@", "ZZ"], ["el.partial", "@", -1.0]])

    def snap(self):
        e = self.lab.R.el[self.el]
        x = max([b for b in e.binding.values()] + [1.0])
        out = [["el.info", "@"], ["el.bind", "@"], ["el.muall", "@"], ["el.cSize", "@"], ["el.cEnabled", "@"], ["el.ccFilled", "@"]]
        out += [["el." + q, "@", s] for s in SHELLS for q in ("rad", "non", "const", "fluo", "auger", "ck")]
        out += [["el.lines", "@", f] for f in ("K", "L", "L3", "M")]
        out += [["el.emitted", "@", 40.0], ["el.excited", "@", 30.0], ["el.vac", "@", x * 1.1], ["el.partial", "@", 20.0], ["el.muv", "@", [2.0, 5.0, 7.0, 10.0, 33.0, x * 1.01]],
                ["el.excv", "@", [x * 1.2, 10.0], [1.0, 2.0]], ["el.cascade", "@", {"K": 1.0, "L1": .5}], ["el.fromvac", "@", {"K": 1.0, "L1": .5, "M2": .1}, 1, 1],
                ["el.fromvac", "@", {"K": 1.0, "L1": .5, "M2": .1}, 1, 0]]
        return out


class Library(World):
    name = "library"
    base = None

    def new(self):
        out = [["E.copy", "@", self.lab.h]]
        self.n = 0
        self.names = []
        for _ in range(3):
            out += self.valid()
        return out

    def valid(self):
        r = self.r
        m = r.randrange(7)
        el = r.choice(["Fe", "Pb", "Si", "Cr"])
        if m < 2:
            self.n += 1
            name = "Mat%d" % self.n
            self.names.append(name)
            return [["E.addMaterialS", "@", name, pos(r), pos(r), "c", 1], ["E.setCompM", "@", name, matgen.composition(r, ["Fe", "Pb", "SiO2", "Cr"])]]
        if m == 2:
            import c13_usermu
            return [["E.setMu", "@", el] + list(c13_usermu.supplied(r, self.lab.R.el[el]))]
        if m == 3:
            return [["E.cEnable", "@", el, 1], ["E.cFill", "@", el, [5.0, 10.0, 33.0]]]
        if m == 4:
            return [["E.ccEnable", "@", el, 1], ["E.ccFill", "@", el]]
        if m == 5:
            return [["E.escEnable", "@", 1], ["E.escUpdate", "@", {"Si": 1.0}, [5.0, 10.0], .01, 1e-7, 4, 90.0, 0.0]]
        return [["E.radFile", "@", "K", os.path.join(self.lab.dir, r.choice(["KShellRates.dat", "EADL97_KShellRadiativeRates.dat"]))]]

    def badfile(self, source):
        """A damaged copy of a data file."""
        r = self.r
        with open(os.path.join(self.lab.dir, source), encoding="latin-1") as f:
            lines = f.read().split("\n")
        m = r.randrange(6)
        data = [i for i, l in enumerate(lines) if l and l[0] != "#" and len(l.split()) > 1]
        last = data[-1]
        if m == 0:
            # the last scan misses the end of a row
            i = r.choice(data[-40:])
            lines[i] = " ".join(lines[i].split()[:-1])
        elif m == 1:
            i = [i for i, l in enumerate(lines) if l.startswith("#S")][-1]
            lines = lines[:i]
        elif m == 2:
            lines = lines[:r.choice(data)]
        elif m == 3:
            i = r.choice([i for i, l in enumerate(lines) if l.startswith("#L")])
            lines[i] = "#L garbage"
        elif m == 4:
            lines = ["not a data file"] * 5
        else:
            i = [i for i, l in enumerate(lines) if l.startswith("#L")][-1]
            lines[i] = "#L nothing  known  here"
        return self.c.write("bad-%s%d.dat" % (self.c.worker, r.randrange(8)), "\n".join(lines))

    def bad(self):
        r = self.r
        m = r.randrange(15)
        el = r.choice(["Fe", "Pb", "Si", "Cr"])
        if m < 4:
            op, src, sh = r.choice([("E.constFile", "EADL97_%sShellConstants.dat", "KLM"), ("E.radFile", "EADL97_%sShellRadiativeRates.dat", "KLM"),
                                    ("E.nonFile", "EADL97_%sShellNonradiativeRates.dat", "KLM"), ("E.muFile", "XCOM_CrossSections.dat", None)])
            if sh is None:
                return [op, "@", self.badfile(src) if r.random() < .9 else "/nonexistent/file"]
            s = r.choice(sh)
            return [op, "@", s if r.random() < .9 else "N", self.badfile(src % s) if r.random() < .9 else "/nonexistent/file"]
        if m == 4:
            import c13_usermu
            return ["E.setMu", "@", el] + c13_usermu.spoil(r, c13_usermu.supplied(r, self.lab.R.el[el]))[1]
        if m == 5:
            import c13_usermu
            return ["E.setMu", "@", "Zz"] + list(c13_usermu.supplied(r, self.lab.R.el[el]))
        name = r.choice(self.names or ["Fe"])
        if m == 6:
            return ["E.setCompM", "@", r.choice(["Nothing", "Fe"]), {"Fe": 1.0}]
        if m == 7:
            return ["E.setCompM", "@", name, r.choice([{"Fe": -1.0}, {"Fe": 1.0, "Pb": -2.0}, {"Zz": 1.0}, {"Fe": 1.0, "nonsense": 1.0}, {name: 1.0}, {}, {"Fe": 0.0}])]
        if m == 8:
            return ["E.setCompV", "@", name, ["Fe", "Pb"], r.choice([[1.0], [1.0, 2.0, 3.0], [], [-1.0, 2.0]])]
        if m == 9:
            return ["E.addMaterialS", "@", r.choice([name, ""]), pos(r), pos(r), "again", 1]
        if m == 10:
            self.D.batch([["mat.new", "dup", name, 1.0, 1.0, "dup"], ["mat.compM", "dup", {"Fe": 1.0}]])
            return ["E.addMaterial", "@", "dup", 1]
        if m == 11:
            return r.choice([["E.removeMaterial", "@", "Nothing"], ["E.ccEnable", "@", "Zz", 1], ["E.ccFill", "@", "Zz"], ["E.cFill", "@", "Zz", [1.0]], ["E.cClear", "@", ""],
                             ["E.cFill", "@", el, [5.0, -2.0]], ["E.cUpdate", "@", el, [11.5, 0.0]], ["E.cEnable", "@", "Zz", 1]])
        if m == 12:
            return ["E.escUpdate", "@", r.choice([{"Si": 1.0}, {"Zz": 1.0}, {}]), r.choice([[5.0, -1.0], [0.0], [7.0, 8.0]]), .01, 1e-7, 4, 90.0, 0.0]
        if m == 13:
            return r.choice([["E.mum", "@", {"Fe": .5, "Zz": .5}, 10.0, 0], ["E.mum", "@", {"Fe": 1.0}, -1.0, 0], ["E.comp", "@", "Nothing"], ["E.families", "@", "Zz", 10.0],
                             ["E.escape", "@", {"Zz": 1.0}, 5.0, .01, 1e-7, 4, 90.0, 0.0], ["E.escape", "@", {"Si": 1.0}, -5.0, .01, 1e-7, 4, 90.0, 0.0], ["E.emitted", "@", "Zz", 5.0],
                             ["E.excv", "@", el, [5.0, 6.0, 7.0], [1.0, 2.0]], ["E.mu", "@", el, -4.0], ["E.fromvac", "@", el, {"Z": 1.0}, 1, 1]])
        return ["E.addMaterialS", "@", name + "x", r.choice(NEG + [0.0]), r.choice(NEG + [0.0]), "", 1]

    def snap(self):
        out = [["E.names", "@"], ["E.materials", "@"], ["E.escEnabled", "@"]]
        for n in self.names[-4:]:
            out += [["E.material", "@", n], ["E.comp", "@", n], ["E.mu", "@", n, 10.0]]
        for el in ["Fe", "Pb", "Si", "Cr"]:
            out += [["E.info", "@", el], ["E.bind", "@", el], ["E.muv", "@", el, [2.0, 5.0, 10.0, 33.0, 80.0]], ["E.emitted", "@", el, 90.0], ["E.vac", "@", el, 90.0],
                    ["E.exc", "@", el, 20.0, 1.0], ["E.cSize", "@", el], ["E.cEnabled", "@", el], ["E.ccFilled", "@", el]]
            out += [["E." + q, "@", el, s] for s in ("K", "L2", "M3") for q in ("rad", "non", "const")]
            out += [["E.fromvac", "@", el, {"K": 1.0, "L1": .3}, 1, 1]]
        out += [["E.getConstFile", "@", s] for s in "KLM"] + [["E.getRadFile", "@", s] for s in "KLM"] + [["E.getNonFile", "@", s] for s in "KLM"]
        out += [["E.escape", "@", {"Si": 1.0}, 10.0, .01, 1e-7, 4, 90.0, 0.0], ["E.families", "@", "Pb", 30.0], ["E.mum", "@", {"Fe": .3, "Pb": .7}, 20.0, 0]]
        return out


class Materials(World):
    name = "material"

    def new(self):
        return [["mat.new", "@", "name", pos(self.r), pos(self.r), "comment"]] + self.valid()

    def valid(self):
        r = self.r
        d = matgen.composition(r, ["Fe", "Pb", "SiO2", "Cr"])
        return [r.choice([["mat.compM", "@", d], ["mat.compV", "@", list(d), list(d.values())]])]

    def bad(self):
        r = self.r
        m = r.randrange(6)
        if m == 0:
            return ["mat.compM", "@", r.choice([{"Fe": -1.0, "Pb": 2.0}, {"Fe": 0.0}, {}, {"": 1.0}, {"Fe": .5, "Pb": -.6}])]
        if m == 1:
            return ["mat.compV", "@", ["Fe", "Pb"], r.choice([[1.0], [1.0, 2.0, 3.0], [], [1.0, -1.0], [0.0, 0.0]])]
        if m == 2:
            return ["mat.compV", "@", [], []]
        if m == 3:
            return ["mat.setName", "@", r.choice(["other", ""])]
        if m == 4:
            return ["mat.init", "@", r.choice(["", "x"]), r.choice(NEG), r.choice(NEG), ""]
        return ["mat.compV", "@", ["Fe", "Fe"], [1.0, -2.0]]

    def snap(self):
        return [["mat.get", "@"]]


class Layers(World):
    name = "layer"

    def new(self):
        r = self.r
        return [["layer.new", "@", r.choice(["Fe", "SiO2", "Pb"]), pos(r), pos(r) / 1e3, r.choice([1.0, .5])]] + self.valid()

    def valid(self):
        r = self.r
        m = r.randrange(4)
        if m == 0:
            return [["layer.density", "@", pos(r)]]
        if m == 1:
            return [["layer.thickness", "@", pos(r) / 1e3]]
        if m == 2:
            return [["layer.matS", "@", r.choice(["Fe", "SiO2"])]]
        return [["mat.new", "lm", "lm", 1.0, 1.0, ""], ["mat.compM", "lm", {"Fe": .5, "Pb": .5}], ["layer.matM", "@", "lm"]]

    def bad(self):
        r = self.r
        h = self.lab.h
        return r.choice([["layer.density", "@", r.choice(NEG + [0.0])], ["layer.thickness", "@", r.choice(NEG + [0.0])], ["layer.matS", "@", ""],
                         ["layer.trans", "@", -1.0, h, 90.0], ["layer.trans", "@", 5.0, h, 200.0], ["layer.muv", "@", [1.0, -1.0], h], ["layer.families", "@", -1.0, h]])

    def snap(self):
        h = self.lab.h
        return [["layer.get", "@"], ["layer.comp", "@", h], ["layer.transv", "@", [5.0, 20.0], h, 45.0], ["layer.mu", "@", 12.0, h], ["layer.families", "@", 30.0, h]]


class Detectors(World):
    name = "detector"

    def new(self):
        r = self.r
        return [["det.new", "@", r.choice(["Si", "Ge", "CdTe"]), pos(r), pos(r) / 100, 1.0]] + self.valid()

    def valid(self):
        r = self.r
        return [r.choice([["det.area", "@", pos(r)], ["det.diameter", "@", pos(r)], ["det.distance", "@", pos(r)], ["det.nesc", "@", r.randint(1, 6)],
                          ["det.minE", "@", r.choice([.01, .5])], ["det.minI", "@", r.choice([1e-7, 1e-3])], ["det.matS", "@", r.choice(["Si", "Ge"])],
                          ["det.density", "@", pos(r)], ["det.thickness", "@", pos(r)], ["det.escape", "@", 20.0, self.lab.h, "x", 1]])]

    def bad(self):
        r = self.r
        h = self.lab.h
        return r.choice([["det." + q, "@", r.choice(NEG)] for q in ("area", "diameter", "distance", "minE", "minI", "density", "thickness")] +
                        [["det.nesc", "@", -1], ["det.distance", "@", 0.0], ["det.escape", "@", -5.0, h, "y", 1], ["det.trans", "@", -1.0, h, 90.0], ["det.matS", "@", ""]])

    def snap(self):
        h = self.lab.h
        return [["det.get", "@"], ["det.comp", "@", h], ["det.transv", "@", [5.0, 20.0], h, 90.0], ["det.escape", "@", 15.0, h, "", 0], ["det.escape", "@", 20.0, h, "x", 1]]


class Setups(World):
    name = "setup"

    def new(self):
        r = self.r
        G = self.G
        self.cfg = G.config(nlayers=3, nray=2, thick=-1, thin=-4)
        self.req = G.requests(self.cfg, 3, .1)
        out = G.commands(self.cfg, "@")
        return out

    def valid(self):
        r = self.r
        return [r.choice([["X.geometry", "@", r.uniform(10, 80), r.uniform(10, 80), -1.0], ["X.single", "@", r.uniform(20, 60), 0.0],
                          ["X.beam", "@", [20.0, 40.0], [1.0, 2.0], [1], []], ["X.filters", "@", [["Al", 2.7, .01, 1.0]]], ["X.attenuators", "@", []],
                          ["X.sample", "@", [["Fe", 7.8, .001, 1.0], ["SiO2", 2.0, .01, 1.0]], r.randrange(2)], ["X.sampleS", "@", "Pb", 11.0, .001]])]

    def bad(self):
        r = self.r
        h = self.lab.h
        m = r.randrange(6)
        if m == 0:
            return ["X.sample", "@", [["Fe", 7.8, .001, 1.0]], r.choice([-1, 1, 5])]
        if m == 1:
            return ["X.sample", "@", [], 0]
        if m == 2:
            return ["X.beam", "@", [20.0, 30.0, 40.0], r.choice([[1.0, 2.0], [1.0] * 3]), r.choice([[1, 1], [0, 1]]), r.choice([[], [0.0, 0.0]])]
        if m == 3:
            text = r.choice(["", "[fit]\nenergy = 10, 20, 30\nenergyweight = 1, 2\n", "[peaks]\nFe = K\n", "[fit\n",
                             "[fit]\nenergy = 10.0\nenergyweight = 1\n[attenuators]\nDetector = 1, Si, 2.33\nMatrix = 1, Fe, 7.8, 0.01, 10.0, 20.0, 0, 90.0\n",
                             "[fit]\nenergy = 10.0\nenergyweight = 1\n[attenuators]\nMatrix = 1, Fe, 7.8, 0.01, 10.0, 20.0, 0, 90.0\natmosphere = 1, Air\n",
                             "[fit]\nenergy = 10.0\nenergyweight = 1\n[concentrations]\ndistance = -4.0\n", "[fit]\nenergy = 10.0\nenergyweight = 1\n[concentrations]\narea = -4.0\n",
                             "[fit]\nenergy = 10.0\nenergyweight = 1\n[Materials.X]\nCompoundList = Fe, Pb\nCompoundFraction = 1.0\n",
                             "[fit]\nenergy = -10.0\nenergyweight = 1\n", "[fit]\nenergy = 10.0\nenergyweight = -1\n",
                             "[fit]\nenergy = 10.0\nenergyweight = 1\n[UserBeamFilters.X]\nuse = 1\nenergy = 1, 2, 3\ntransmission = 1, 1\n",
                             "[fit]\nenergy = 10.0\nenergyweight = 1\n[UserAttenuators.X]\nuse = 1\nenergy = 1, 2\ntransmission = 1, -1\n",
                             "[fit]\nenergy = 10.0\nenergyweight = 1\n[attenuators]\nMatrix = 1, MULTILAYER, 0, 0, 10.0, 20.0, 0, 90.0\n[multilayer]\nLayer0 = 1, Fe, 7.8\n"])
            return ["X.read", "@", self.c.write("bad-%s%d.cfg" % (self.c.worker, r.randrange(8)), text)]
        el = self.req[0][0]
        if m == 4:
            return ["X.fluo", "@", h, [el, "Zz"], [0], ["K", "K"], 0, 1, 1, 0.0, None]
        return r.choice([["X.fluo", "@", h, [el], [99], ["K"], 0, 1, 1, 0.0, None], ["X.fluo", "@", h, [el, el], [0], ["K"], 0, 1, 1, 0.0, None],
                         ["X.one", "@", h, el, -1, "K", 0, 1, 1, 0.0, None], ["X.multi", "@", h, ["garbage"], 0, 1, 1, 0.0, None], ["X.geff", "@", 99], ["X.geff", "@", -1]])

    def snap(self):
        h = self.lab.h
        ls = sorted({l for e, f, l in self.req})
        return [["X.config", "@"], ["X.geff", "@", 0], ["X.fluo", "@", h, [e for e, f, l in self.req], [-1], [f for e, f, l in self.req], 0, 1, 1, 0.0, None],
                ["X.print", "@"]]


WORLDS = [Beams, Tables, Shells, Element, Library, Materials, Layers, Detectors, Setups]


def sub(cmd, h):
    return [cmd[0], h] + cmd[2:] if len(cmd) > 1 and cmd[1] == "@" else [h if x == "@" and cmd[0] == "X.detector" else x for x in cmd]


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def same_answers(a, b):
    """Index of the first different answer of two snapshots, or None. An operation that is refused may still drop
    caches, and an answer calculated anew can differ from a cached one by roundings."""
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, LibError) and isinstance(y, LibError):
            continue
        if isinstance(x, LibError) or isinstance(y, LibError) or diff(x, y, 1e-11):
            return i
    return None


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    sys.path.insert(0, os.path.join(build.VERIF, "checks"))
    lab = Lab(c, ["default", "pymca"][w % 2], driver=D)
    Setups.G = xrfgen.Gen(lab, r)
    t0 = time.time()
    run = 0
    while run < c.size(3000, 10 ** 6) and time.time() - t0 < c.size(16, 500):
        run += 1
        W = r.choice(WORLDS)(c, D, r, lab)
        ctx = []

        def both(cmds):
            """On the object and on its twin; refusals must agree."""
            ctx.extend(cmds)
            ga = D.batch([sub(q, "a") for q in cmds])
            gb = D.batch([sub(q, "b") for q in cmds])
            for q, x, y in zip(cmds, ga, gb):
                if isinstance(x, LibError) != isinstance(y, LibError):
                    c.fail(W.name + ":twin", "%s gives %s, but %s without the refused operations before (%s)" % (_j(q), x, y, _j(ctx[-12:])))
        new = W.new()
        both(new)
        clean = True
        for step in range(r.randint(1, 6)):
            bad = W.bad()
            snap = W.snap()
            look = r.random() < .6     # without looking before, the state is that of the history alone
            if look:
                before = D.batch([sub(q, "a") for q in snap])
            g = D.attempt(*sub(bad, "a"))
            if not isinstance(g, LibError):
                c.count("accepted:" + W.name)
                c.count("accepted-op:" + bad[0])
                # not a refusal: the twin gets it as well
                D.attempt(*sub(bad, "b"))
                ctx.append(bad)
                continue
            c.count("refused:" + W.name)
            c.case((w, run, step), None)
            ctx.append(["refused:"] + bad)
            if not look:
                continue
            after = D.batch([sub(q, "a") for q in snap])
            i = same_answers(before, after)
            if i is not None:
                c.fail(W.name + ":" + bad[0], "%s was refused (%s) but %s changed from %s to %s: %s" % (
                    _j(bad), g, _j(snap[i]), _j(before[i]), _j(after[i]), diff(after[i], before[i], 0.0) if not isinstance(after[i], LibError) and not isinstance(before[i], LibError) else ""),
                    {"history": ctx[-15:]})
            if r.random() < .5:
                both(W.valid())
        snap = W.snap()
        a = D.batch([sub(q, "a") for q in snap])
        b = D.batch([sub(q, "b") for q in snap])
        i = same_answers(a, b)
        if i is not None:
            c.fail(W.name + ":twin", "%s gives %s, but %s without the refused operations: %s" % (
                _j(snap[i]), _j(a[i]), _j(b[i]), diff(a[i], b[i], 0.0) if not isinstance(a[i], LibError) and not isinstance(b[i], LibError) else ""), {"history": ctx[-30:]})
        c.count("snapshots:" + W.name)
        if run % 40 == 0:
            c.sample({"object": W.name, "history": [_j(q) for q in ctx[-6:]]})


if __name__ == "__main__":
    Check("C31", RULE).run(main)
