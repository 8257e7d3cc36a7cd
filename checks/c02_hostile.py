"""C02: random hostile sequences of public calls against sanitized builds."""
import json, math, os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, gendata, mutate, runner
from runner import Check, LibError, Crash

RULE = ("one call on live objects with arguments from value classes (ordinary, boundary, negative, zero, huge, subnormal, infinite, NaN, empty, mismatched, unknown names); "
        "distinct by operation, outcome class and arguments")
NAN, INF = float("nan"), float("inf")
SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
NASTYD = [0.0, -0.0, 1.0, -1.0, 1e-300, 5e-324, 1e300, 1.7976931348623157e308, -1e300, INF, -INF, NAN, 1e-10, 1e10, 2147483648.0, -2147483649.0, 4294967296.0, 1e18, 1e19, 90.0, 180.0, 360.0, 1e-5, 0.5, 7.112, 1000.0, 1e5, 30.0]
NASTYI = [0, 1, -1, 2, 3, 5, -2147483648, 2147483647, 100, 118, 119, 1000, -100, 26, 92, 94, 99]
NASTYS = ["", " ", "K", "L", "KL3", "KL", "K-L1", "L3M5", "L1M", "Fe", "fe", "FE", "FeFe", "Fe2O3", "H2O", "(", ")", "()", "(Fe", "Fe)", "((Fe)2", "(Fe2)3", "Fe0", "Fe-1", "Fe1.5", "Fe1e5", "Fe.", "2Fe", "Fe 2", "Xx",
          "Fe\n", "\x00", "\xff\xfe", "A" * 1000, "(" * 60 + "Fe" + ")" * 60, "H" * 500, "H2" * 200, "Fe1e308", "Fe1e999", "None", "-", "Si1 K", "Fe K", "Fe KL3", "Fe L", "Fe L3", "Fe M", "Fe N", " K", "Fe ", "Fe  K", "Fe K K",
          "Pb L", "Pb M5", "Xx K", "TOTAL", "energy", "pair", "total", "photoelectric", "omegaK", "omegaL1", "f12", "f13", "f'13", "/nonexistent", ".", "/dev/null", "/dev/zero/x", "%s%n", "M6", "N1", "all other", "12345", "1e5", "steel", "water"]
ELS = ["H", "C", "O", "Al", "Si", "Fe", "Ni", "Cu", "Mo", "Ag", "Gd", "Au", "Pb", "U", "Cf"]


class Args(object):
    """Argument generators by type code."""
    def __init__(self, r, paths):
        self.r, self.paths = r, paths
        self.level = .3

    def bad(self):
        return self.r.random() < self.level

    def D(self):
        r = self.r
        if self.bad():
            v = r.choice(NASTYD)
            return v * r.choice([1, 1, -1, 1 + 1e-15, .5])
        return r.choice([r.uniform(.1, 40), 10 ** r.uniform(-3, 3), float(r.randint(0, 5)), r.uniform(0, 1)])

    def e(self):     # energy
        return self.r.choice(NASTYD) if self.r.random() < self.level * .7 else self.r.choice([self.r.uniform(1, 40), 7.112, 10 ** self.r.uniform(-1.5, 2.5)])

    def I(self):
        return self.r.choice(NASTYI) if self.bad() else self.r.randint(0, 3)

    def i(self):     # small integers: flags, counts and indices
        return self.r.choice([0, 0, 1, 1, 2, 3, -1, 7, -2147483648, 2147483647] if self.bad() else [0, 1])

    def n(self):     # counts that cost work
        return self.r.choice([0, 1, 4, 30, -1, -2147483648, 1000, 10 ** 6])

    def S(self):
        r = self.r
        if self.bad():
            s = r.choice(NASTYS)
            if r.random() < .2:
                s = mutate.one(r, s.encode("latin-1")).decode("latin-1")[:2000]
            return s
        return r.choice(ELS + NASTYS)

    def el(self):
        return self.S() if self.r.random() < self.level * .4 else self.r.choice(ELS)

    def mat(self):   # element, formula, material
        r = self.r
        return self.S() if r.random() < self.level * .5 else r.choice(ELS + ["H2O", "Fe2O3", "SiO2", "Ca(OH)2", "m0", "m1", "m2", "m3", "CuSO4(H2O)5"])

    def name(self):  # names of new things
        return self.S() if self.r.random() < self.level * .5 else self.r.choice(["m0", "m1", "m2", "m3", "Fe", "H2O"])

    def sub(self):
        return self.S() if self.r.random() < self.level * .4 else self.r.choice(SHELLS)

    def fam(self):
        r = self.r
        return self.S() if r.random() < self.level * .4 else r.choice(ELS) + " " + r.choice(["K", "L", "M", "L1", "L3", "M5", "KL3", "L3M5", ""])

    def famo(self):
        return self.S() if self.r.random() < self.level * .4 else self.r.choice(SHELLS + ["K", "L", "M", "KL3", "L3M5", ""])

    def tr(self):
        r = self.r
        s = r.choice(SHELLS)
        return self.S() if r.random() < self.level * .4 else r.choice([s + r.choice(SHELLS), s + r.choice(SHELLS) + r.choice(SHELLS), s + "-" + r.choice(SHELLS) + r.choice(SHELLS), "f%d%d" % (r.randint(0, 5), r.randint(0, 6)), "omega" + s, "TOTAL"])

    def path(self):
        return self.r.choice(self.paths) if self.r.random() < .8 else self.S()

    def size(self):
        return self.r.choice([0, 1, 1, 2, 2, 3, 5, 8] + ([40] if self.r.random() < .1 else []))

    def VD(self):
        return [self.D() for _ in range(self.size())]

    def Ve(self):
        v = [self.e() for _ in range(self.size())]
        return sorted(v) if self.r.random() < .7 and all(x == x for x in v) else v

    def VI(self):
        return [self.I() for _ in range(self.size())]

    def VS(self):
        return [self.S() for _ in range(self.size())]

    def Vel(self):
        return [self.mat() for _ in range(self.size())]

    def Vtr(self):
        return [self.tr() for _ in range(self.size())]

    def Vsub(self):
        return [self.sub() for _ in range(self.size())]

    def Vfam(self):
        return [self.fam() for _ in range(self.r.choice([0, 1, 1, 2, 3]))]

    def MD(self):
        return {self.S(): self.D() for _ in range(self.size())}

    def Mel(self):
        return {self.mat(): self.D() for _ in range(self.size())}

    def Msub(self):
        return {self.sub(): self.D() for _ in range(self.size())}

    def Mtr(self):
        return {self.tr(): self.D() for _ in range(self.size())}

    def Mconst(self):
        return {self.r.choice(["omegaK", "omegaL1", "omegaL2", "omegaL3", "omegaM1", "omegaM5", "f12", "f13", "f23", "f12", "f45"]) if not self.bad() else self.S(): self.r.uniform(0, .4) if not self.bad() else self.D() for _ in range(self.size())}

    def pairs(self):
        return [[self.e(), self.D()] for _ in range(self.size())]

    def layer(self):
        r = self.r
        if r.random() < .4:
            return self.h()
        return [self.mat(), self.D(), self.D() * (1e-3 if r.random() < .5 else 1), r.choice([1.0, 1.0, 1.0, self.D()])] + ([self.h()] if r.random() < .15 else [])

    def layers(self):
        return [self.layer() for _ in range(self.r.choice([0, 1, 1, 2, 3]))]

    def h(self):
        return str(self.r.randrange(3))

    def hs(self):
        return [self.h() for _ in range(self.r.choice([0, 0, 1, 2]))]

    def beam(self):
        return None if self.r.random() < .5 else self.h()

    def sep(self):
        return self.r.choice([",", ";", " ", ".", "\t", "1"])

    def text(self):
        r = self.r
        s = r.choice([",", ";", ", ", ""]).join(str(r.choice([self.D(), self.S(), self.I(), ""])) for _ in range(self.size()))
        return s[:3000]

    # tables of mass attenuation coefficients: parallel lists
    def mu(self):
        r = self.r
        n = self.size() + r.choice([0, 1, 5])
        e = sorted(10 ** r.uniform(-1, 2.5) for _ in range(n))
        if n > 2 and r.random() < .5:
            e[1] = e[0]
        if n and self.bad():
            e[r.randrange(n)] = self.D()
        cols = [e] + [[10 ** r.uniform(-3, 3) if not (r.random() < .05 and self.bad()) else self.D() for _ in range(n)] for _ in range(4)]
        if self.bad():
            k = r.randrange(5)
            cols[k] = cols[k][:-1] if r.random() < .5 else cols[k] + [1.0]
        return cols


# operation, relative weight, argument types ("*x" splices a list)
SIG = """
math.E1 1 D|math.En 1 n D|math.deBoerD 1 D|math.deBoerL0 2 D D D D D|math.deBoerX 1 D D D D D D D|math.deBoerV 1 D D D D D D D|math.erf 1 D|math.erfc 1 D|math.fwhm 1 D D D D|math.isFinite 1 D
beam.new 1 h|beam.copy 2 h h|beam.assign 1 h h|tt.copy 1 h h|tt.assign 1 h h|shell.copy 1 h h|shell.assign 1 h h|el.assign 1 h h|mat.assign 1 h h|layer.assign 1 h h|det.assign 1 h h|X.assign 1 h h|beam.set 4 h Ve VD VI VD|beam.set1 2 h Ve|beam.setRaw 2 h *rays|beam.single 2 h e D|beam.get 2 h|beam.rays 1 h|beam.print 1 h
tt.new 1 h|tt.new 1 h S S|tt.setMap 2 h pairs S S|tt.setVec 3 h *ev S S|tt.name 1 h S|tt.comment 1 h S|tt.get 1 h|tt.at 2 h e|tt.atv 2 h Ve
ini.vd 1 text D sep|ini.vi 1 text I sep|ini.vs 1 text S sep|ini.d 1 text D|ini.i 1 text I|ini.new 1 h|ini.new 1 h path|ini.read 1 h path|ini.sections 1 h|ini.sub 1 h S i|ini.section 1 h S i
spec.new 1 h|spec.new 1 h path|spec.file 3 h path|spec.n 1 h|spec.labels 1 h I|spec.data 1 h I
shell.new 2 h sub|shell.radv 2 h *trv|shell.radm 2 h Mtr|shell.radc 2 h *raw|shell.nonv 2 h *trv|shell.nonm 2 h Mtr|shell.nonc 2 h *raw|shell.const 2 h Mconst|shell.getConst 1 h|shell.rad 1 h|shell.non 1 h
shell.fluo 1 h|shell.auger 1 h|shell.ck 1 h|shell.yield 1 h|shell.transfer 2 h sub|shell.self 2 h sself i
epdl.new 1 h|epdl.self 2 hp I i|epdl.setb 3 hp I Msub|epdl.getb 2 hp I|epdl.mu 3 hp I e|epdl.muv 2 hp I Ve|epdl.muall 1 hp I|epdl.pw 3 hp I e|epdl.pwv 2 hp I Ve
el.new 1 h|el.new 2 h name I|el.copy 2 h h|el.from 3 h E el|el.setName 1 h S|el.setZ 2 h I|el.setMass 1 h D|el.setDensity 1 h D|el.setLong 1 h S|el.setCol 1 h I|el.setRow 1 h I|el.info 1 h
el.bindm 3 h Msub|el.bindv 3 h *subv|el.bind 1 h|el.excited 2 h e|el.setMu 5 h *mu i|el.setMu 2 h VD VD VD VD VD i|el.setTotal 1 h VD VD|el.muall 1 h|el.mu 3 h e|el.muv 3 h Ve|el.edges 2 h|el.edgesv 2 h *ev
el.setPartial 4 h sub *ev|el.partial 3 h e|el.radm 2 h sub Mtr|el.radv 2 h sub *trv|el.rad 1 h sub|el.nonm 2 h sub Mtr|el.nonv 2 h sub *trv|el.non 1 h sub|el.setConst 2 h sub Mconst|el.const 1 h sub
el.tenergy 2 h tr|el.lines 2 h famo|el.emitted 2 h e|el.vac 2 h e|el.vacv 2 h Ve|el.cascade 3 h Msub|el.fromvac 3 h Msub i i|el.exc 3 h e D|el.excv 3 h *ev|el.fluo 1 h sub|el.auger 1 h sub|el.ck 1 h sub
el.indices 2 h Ve e|el.ccEnable 1 h i|el.ccFill 1 h|el.ccEmpty 1 h|el.ccFilled 1 h|el.cFill 1 h Ve|el.cUpdate 1 h Ve|el.cClear 1 h|el.cEnable 1 h i|el.cEnabled 1 h|el.cSize 1 h|el.self 4 h eself sub i
E.defined 1 E mat|E.addElement 3 E h|E.names 1 E|E.info 1 E el|E.emitted 1 E el e|E.non 1 E el sub|E.rad 1 E el sub|E.vac 1 E el e|E.vacv 1 E el Ve|E.cascade 1 E el Msub|E.fromvac 1 E el Msub i i|E.const 1 E el sub
E.getConstFile 1 E sub|E.getRadFile 1 E sub|E.getNonFile 1 E sub|E.setMu 3 E el *mu|E.muall 1 E mat|E.muv 2 E mat Ve|E.mu 3 E mat e|E.mumv 3 E Mel Ve i|E.mum 3 E Mel e i
E.create 2 E name D D S|E.setCompM 4 E name Mel|E.setCompV 4 E name *matv|E.material 1 E name|E.materialCopy 1 E name|E.materials 1 E|E.addMaterial 4 E h i|E.addMaterialS 4 E name D D S i|E.removeMaterial 1 E name|E.removeMaterials .2 E
E.formulaComp 2 E mat|E.comp 3 E mat|E.compM 2 E mat hs|E.compMM 2 E Mel hs|E.parse 3 E S|E.parse 2 E mat|E.excv 2 E el *ev|E.exc 2 E el e D|E.families 3 E mat e|E.familiesV 3 E Vel e|E.bind 1 E el
E.escape 4 E Mel e D D i D D|E.escUpdate 2 E Mel Ve D D i D D|E.escEnable 1 E i|E.escEnabled 1 E|E.escClear 1 E|E.ccEnable 1 E el i|E.ccFilled 1 E el|E.ccFill 1 E el|E.ccEmpty 1 E el|E.cFill 2 E el Ve|E.cUpdate 2 E el Ve
E.cClear 1 E el|E.cEnable 1 E el i|E.cEnabled 1 E el|E.cSize 1 E el|E.s2d 2 text|E.s2d 1 S|E.d2s 1 D|E.self 4 E Eself eln i
mat.new 1 h|mat.new 2 h name D D S|mat.copy 1 h h|mat.init 1 h name D D S|mat.setName 2 h name|mat.compM 4 h Mel|mat.compV 4 h *matv|mat.get 1 h
layer.new 3 h mat D D D|layer.copy 1 h h|layer.matS 2 h mat|layer.matM 3 h h|layer.density 2 h D|layer.thickness 2 h D|layer.get 1 h|layer.comp 2 h E|layer.trans 3 h e E D|layer.transv 2 h Ve E D|layer.mu 2 h e E|layer.muv 2 h Ve E
layer.families 3 h e E|layer.self 2 h lself i
det.new 2 h mat D D D|det.copy 1 h h|det.matS 1 h mat|det.matM 2 h h|det.density 1 h D|det.thickness 1 h D|det.area 1 h D|det.diameter 1 h D|det.distance 1 h D|det.nesc 1 h i|det.minE 1 h D|det.minI 1 h D|det.escClear 1 h|det.get 1 h
det.escape 5 h e E S i|det.trans 1 h e E D|det.transv 1 h Ve E D|det.comp 1 h E|det.self 2 h dself i
X.new 1 h|X.new 1 h path|X.copy 2 h h|X.read 2 h path|X.beamB 2 h h|X.beam 3 h Ve VD VI VD|X.single 2 h e D|X.filters 2 h layers|X.ufilters 1 h hs|X.sample 5 h layers i|X.sampleS 2 h mat D D|X.sampleL 1 h layer|X.attenuators 2 h layers
X.uattenuators 1 h hs|X.detector 3 h h|X.geometry 3 h D D D|X.config 1 h|X.print 1 h|X.geff 2 h i|X.ethreshold 2 h el famo E|X.multi 7 h E Vfam sec i i lim beam|X.fluo 5 h E *fluo sec i i lim beam|X.one 3 h E el i famo sec i i lim beam
X.lcomp 1 h layer E|X.lmu 1 h layer e E|X.lmu 1 h layer e E Mel|X.lmuv 1 h layer Ve E Mel|X.ltrans 1 h layer e E D|X.ltrans 1 h layer e E D Mel|X.ltransv 1 h layer Ve E D Mel|X.lfamilies 1 h layer e E|X.lfamilies 1 h layer e E Mel|X.self 3 h xself i
"""
CHOICES = {"sself": ["rad", "non", "fluo", "const", "assign"], "eself": ["bind", "rad", "non", "const", "mass", "mu", "lines", "assign"], "Eself": ["element", "material", "comp", "remove", "element", "material"],
           "lself": ["material", "name", "density", "assign"], "dself": ["material", "name", "distance", "assign"],
           "xself": ["beam", "filters", "ufilters", "sample", "attenuators", "swap", "uattenuators", "detector", "geometry", "one", "assign"]}


def signatures():
    out = []
    for line in SIG.split("\n"):
        for s in line.split("|"):
            w = s.split()
            if w:
                out.append((w[0], float(w[1]), w[2:]))
    return out


def arg(A, t, E):
    r = A.r
    if t == "E":
        return E
    if t == "hp":
        return str(r.choice([0, 1, 2, "P", "P"]))
    if t in CHOICES:
        return r.choice(CHOICES[t])
    if t == "eln":
        return r.choice(ELS + ["m0", "m1", "m2", "m3", "K", "L", "M"])
    if t == "sec":
        return r.choice([0, 0, 1, 2, 2, 3, -1, 2147483647])
    if t == "lim":
        return r.choice([0.0, 0.0, 1e-10, A.D()])
    return getattr(A, t)()


def make(A, sig, E):
    op, _, types = sig
    args = []
    for t in types:
        if t == "*mu":
            args += A.mu()
        elif t == "*raw":     # bare arrays: the caller answers for their sizes
            n = A.size()
            args += [[A.tr() for _ in range(n)], [A.D() for _ in range(n)]]
        elif t in ("*trv", "*subv", "*ev", "*matv"):     # parallel lists, mostly of one length
            n = A.size()
            f = {"*trv": A.tr, "*subv": A.sub, "*ev": A.e, "*matv": A.mat}[t]
            k = [f() for _ in range(n)]
            if A.r.random() < .7 and all(x == x for x in k):
                k = sorted(set(k))
            if not A.bad():
                n = len(k)
            args += [k, [A.D() if A.bad() else abs(A.r.choice([A.r.uniform(0, .2), A.r.uniform(0, 10)])) for _ in range(n)]]
        elif t == "*rays":
            n = A.size()
            args += [[A.e() for _ in range(n)]] + [A.r.choice([None, [f() for _ in range(n)]]) for f in (A.D, A.i, A.D)] + [A.r.choice([0, 1])]
        elif t == "*fluo":
            n = A.r.choice([0, 1, 1, 2, 3])
            l = [[A.el() for _ in range(n)], [A.i() for _ in range(n)], [A.famo() for _ in range(n)]]
            if A.bad():
                k = A.r.randrange(3)
                l[k] = l[k][1:]
            args += l
        else:
            args.append(arg(A, t, E))
    return [op] + args


def start(A, E):
    """Live objects of every kind."""
    r = A.r
    c = []
    for k in range(3):
        h = str(k)
        c += [["beam.new", h], ["beam.set", h, [20.0, 10.0], [1.0, 2.0], [1, 0], [0.0]], ["tt.new", h], ["tt.setVec", h, [1.0, 10.0], [.5, .9], "t", "c"], ["shell.new", h, r.choice(SHELLS)], ["epdl.copy", h] if 0 else ["el.from", h, E, r.choice(ELS)],
              ["mat.new", h, "m%d" % k, 1.0, .01, "c"], ["mat.compV", h, ["Fe", "O", "m%d" % ((k + 1) % 3)][:r.choice([1, 2, 2, 3])], [.5, .5, .1][:2]], ["layer.new", h, r.choice(ELS + ["m1", "H2O"]), 1.0, .01, 1.0],
              ["det.new", h, "Si", 2.33, .05, 1.0], ["X.new", h], ["X.beamB", h, h], ["X.sample", h, [[r.choice(ELS), 5.0, .001], ["SiO2", 2.0, .01]], 0], ["X.geometry", h, 45.0, 45.0, 90.0], ["X.detector", h, h],
              ["ini.new", h], ["spec.new", h], ["E.addMaterialS", E, "m%d" % k, 1.0, .1, "", 0], ["E.setCompV", E, "m%d" % k, ["Fe", "Cu"], [.5, .5]]]
    return c


FOCUS = ["el.", "E.", "E.", "X.", "X.", "layer.", "det.", "shell.", "epdl.", "mat.", "math.", "beam.", "tt.", "ini.", None, None, None]


def story(c, A, D, sigs, base, n, used):
    r = c.rng
    A.level = r.choice([.05, .15, .3, .3, .6, 1.0])
    E = "e%d" % r.randrange(2)
    if r.random() < .25 or E not in used:
        D.call("E.copy", E, base)
        used.add(E)
    focus = r.choice(FOCUS)
    weights = [w * (8 if focus and s[0].startswith(focus) else 1) for s, w in [(s, s[1]) for s in sigs]]
    D.raw(start(A, E))
    if r.random() < .3:
        E2 = base + "x"
    done = 0
    while done < n:
        k = min(n - done, 25)
        cmds = [make(A, s, E) for s in r.choices(sigs, weights, k=k)]
        t = time.time()
        got = D.raw(cmds)
        if os.environ.get("C02_SLOW") and time.time() - t > 2:
            print("slow %.1f" % (time.time() - t), json.dumps([x for x in cmds])[:3000])
        for cmd, g in zip(cmds, got):
            kind = "ok" if "ok" in g else g["err"][0] if "err" in g else "harness"
            if kind == "harness":
                c.count("harness_refused")
                continue
            c.case((cmd[0], kind, json.dumps(cmd)[:400]), "answered" if kind == "ok" else "refused")
            c.count("op_" + cmd[0].split(".")[0])
            if kind == "ok":
                c.count("ok:" + cmd[0])
        done += k


def worker(c, w):
    t0 = time.time()
    d = c.datadir(1 + c.seed % 3)
    sh = c.extra["paths"]
    A = Args(c.rng, sh)
    sigs = signatures()
    budget = c.size(26, 840)
    mem = w == 7
    if mem:
        D = c.driver("mem", timeout=300, prefix=["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes"])
        sigs = [s for s in sigs if "E" not in s[2] and not s[0].startswith("E.")]
    else:
        D = c.driver("asan", timeout=120)
    used = set()
    up = False
    base = "B"
    n = 0
    while time.time() - t0 < budget:
        if not up:
            if not mem:
                D.call("E.new", base, d, 0)
                D.call("epdl.new", "P", d)
                canary = [["E.mu", base, "Fe", 12.0], ["E.comp", base, "Fe2O3"], ["E.escape", base, {"Si": 1.0}, 8.0, .01, 1e-7, 4, 45.0, 0.0], ["E.cascade", base, "Pb", {"L1": 1.0}]]
                want = D.raw(canary)
            up = True
            used.clear()
        try:
            if mem:
                memstory(c, A, D, sigs)
            else:
                story(c, A, D, sigs, base, c.size(100, 200), used)
                if n % 4 == 0:
                    g = D.raw(canary)
                    if json.dumps(g) != json.dumps(want):
                        c.fail("canary", "a library nobody touched changed its answers after calls on other objects", {"got": g, "want": want}, D)
                    c.count("canaries")
        except Crash as e:
            c.crash(e, D)
            up = False
        n += 1
        if len(D.log) > 60000:
            D.restart()
            up = False
    c.count("stories", n)


def memstory(c, A, D, sigs):
    """Objects that need no data files, watched for uninitialised values."""
    r = c.rng
    A.level = r.choice([.05, .3, .6])
    cm = []
    for k in range(3):
        h = str(k)
        cm += [["beam.new", h], ["tt.new", h], ["shell.new", h, r.choice(SHELLS)], ["el.new", h, r.choice(ELS), r.randint(1, 99)] if r.random() < .8 else ["el.new", h], ["mat.new", h] if r.random() < .5 else ["mat.new", h, "m%d" % k, 1.0, .01, "c"],
               ["layer.new", h, r.choice(ELS), 1.0, .01, 1.0], ["det.new", h, "Si", 2.33, .05, 1.0], ["X.new", h], ["ini.new", h], ["spec.new", h]]
    D.raw(cm)
    cmds = [make(A, s, None) for s in r.choices(sigs, [s[1] for s in sigs], k=60)]
    for cmd, g in zip(cmds, D.raw(cmds)):
        kind = "ok" if "ok" in g else g["err"][0] if "err" in g else "harness"
        c.case((cmd[0], kind, json.dumps(cmd)[:400]), "memcheck_calls")


def main(c):
    build.build("asan")
    build.build("mem")
    d = c.datadir(1 + c.seed % 3)
    ini = c.write("a.ini", "[attenuators]\nDetector = 1, Si, 2.33, 0.05, 1.0\n[fit]\nenergy = 20, 10\nenergyweight = 1, 1\nenergyflag = 1, 1\n[concentrations]\nuseattenuators=1\n")
    c.extra["paths"] = [ini, os.path.join(d, "BindingEnergies.dat"), d, "/nonexistent"]
    c.fork(8, worker)
    c.extra.pop("paths", None)
    ok = {k[3:]: c.counts.pop(k) for k in list(c.counts) if k.startswith("ok:")}
    c.extra["answers_per_operation"] = ok
    c.extra["operations_never_answered"] = sorted(set(s[0] for s in signatures()) - set(ok))
    c.count("operations_answered", len(ok))


if __name__ == "__main__":
    Check("C02", RULE).run(main)
