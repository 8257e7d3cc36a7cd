"""C04: answers depend only on the inputs, never on history or memory."""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from common import _j
import c31_atomic, c02_hostile, xrfgen
from c31_atomic import sub
RULE = ("one comparison of two exact answers to one query: in another process with other stack and heap fill, in another order with other objects in use, on a copy or an assigned-to object, "
        "after changes of the other one of the two, after feeding an object its own data by reference; distinct by query, object kind and answer")
OPS = {"beam": "beam", "table": "tt", "shell": "shell", "element": "el", "library": "E", "material": "mat", "layer": "layer", "detector": "det", "setup": "X"}
SELF = {"shell": [["rad"], ["non"], ["const"], ["fluo"], ["assign"]],
        "element": [[w, s] for w, s in [("bind", ""), ("mass", ""), ("mu", ""), ("assign", "")]] + [[w, s] for w in ("rad", "non", "const") for s in ("K", "L1", "L3", "M1", "M5")],
        "library": [["element", "Fe"], ["element", "Pb"], ["assign", ""], ["material", "Mat1"], ["comp", "Mat1"], ["remove", "Mat1"], ["material", "Alloy2"], ["comp", "Alloy2"], ["remove", "Alloy3"],
                    ["const", "K"], ["const", "L"], ["rad", "K"], ["rad", "M"], ["non", "L"], ["non", "M"]],
        "layer": [["material"], ["name"], ["density"], ["assign"]], "detector": [["material"], ["name"], ["distance"], ["assign"]],
        "setup": [["beam"], ["filters"], ["ufilters"], ["sample"], ["attenuators"], ["swap"], ["uattenuators"], ["detector"], ["geometry"], ["one"], ["assign"]]}


class Setups(c31_atomic.Setups):
    """With the dependent calculations and single answers."""
    def new(self):
        r = self.r
        big = r.random() < .1
        self.cfg = self.G.config(nlayers=r.choice([1, 2, 2]), nray=r.choice([1, 2]), nmax=3 if big else 2, thick=-1, thin=-4)
        self.req = self.G.requests(self.cfg, 3 if big else 2, .1)
        self.deep = r.choice([1, 2])
        return self.G.commands(self.cfg, "@")

    def snap(self):
        h, r = self.lab.h, self.r
        out = c31_atomic.Setups.snap(self)
        els, fams, ls = [e for e, f, l in self.req], [f for e, f, l in self.req], [l for e, f, l in self.req]
        out += [["X.fluo", "@", h, els[:1], ls[:1], fams[:1], self.deep, 1, 1, 0.0, None]]
        out += [["X.multi", "@", h, [e + " " + f for e, f in zip(els, fams)][:1], 1, 0, 1, 1e-6, None], ["X.ethreshold", "@", els[0], fams[0], h],
                ["X.one", "@", h, els[0], 0, fams[0], 0, 1, 0, 0.0, None], ["X.lcomp", "@", ["SiO2", 2.0, .01, 1.0], h], ["X.ltransv", "@", ["Fe", 7.0, .001, 1.0], [5.0, 20.0], h, 90.0]]
        return out


class Library(c31_atomic.Library):
    def snap(self):
        h = "@"
        out = c31_atomic.Library.snap(self)
        r = self.r
        for el in ("O", "Sn", "U", "Pb", "Fe"):
            out += [["E.muall", h, el], ["E.vacv", h, el, [3.0, 8.0, 30.0, 120.0]], ["E.cascade", h, el, {"K": .2, "L1": .3, "L2": .1, "M1": .4}], ["E.excv", h, el, [9.0, 40.0], [1.0, .5]],
                    ["E.families", h, el, 25.0]] + [["E." + q, h, el, s] for s in ("L1", "L3", "M5") for q in ("rad", "non", "const")]
        out += [["E.familiesV", h, ["Fe", "Pb", "Sn"], 40.0], ["E.comp", h, "CaSO4(H2O)2"], ["E.parse", h, "Ca(OH)2"], ["E.mum", h, {"SiO2": 1.0, "Pb": .2}, 33.0, 0],
                ["layer.trans", "probe", 17.0, h, 45.0], ["det.escape", "probe", 12.0, h, "", 0]]
        return out


WORLDS = [c31_atomic.Beams, c31_atomic.Tables, c31_atomic.Shells, c31_atomic.Shells, c31_atomic.Element, c31_atomic.Element, Library, Library, c31_atomic.Materials, c31_atomic.Layers,
          c31_atomic.Detectors, Setups, Setups]
ZERO = {"MALLOC_PERTURB_": "0"}
FILL = {"MALLOC_PERTURB_": "85", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096"}


def text(g):
    return json.dumps(g, sort_keys=True)


def norm(rep):
    """Raw reply with the wording of errors left out."""
    return "err" if "err" in rep else text(rep.get("ok", rep))


class Pair(object):
    """Two processes that receive the same changes."""
    def __init__(self, c, memcheck=False):
        self.c = c
        self.a = c.driver("zero", env=ZERO)
        self.b = c.driver("pattern", env=FILL)
        self.D = self.a

    def change(self, cmds, kind):
        ra, rb = self.a.raw(cmds), self.b.raw(cmds)
        for q, x, y in zip(cmds, ra, rb):
            if norm(x) != norm(y):
                self.c.fail("memory:" + kind, "%s gives %s in a process with zeroed memory and %s in one with filled memory" % (_j(q), _j(x), _j(y)), None, self.b)
            self.c.count("changes")
        return ra

    def batch(self, cmds):
        self.b.raw(cmds)
        return self.a.batch(cmds)

    def ask(self, D, cmds):
        return [norm(x) for x in D.raw(cmds)]


def compare(c, kind, why, cmds, g, w, D):
    for q, x, y in zip(cmds, g, w):
        c.case((kind, why, q[0], x), "compared:" + why)
        if x != y:
            d = ""
            try:
                # roundings of answers kept or calculated anew are allowed here, not between the processes
                d = diff(json.loads(x), json.loads(y), 1e-12)
                if not d:
                    c.count("roundings")
                    continue
            except ValueError:
                pass
            c.fail("%s:%s:%s" % (why, kind, q[0]), "%s: %s gives %s instead of %s (%s)" % (why, _j(q), x[:600], y[:600], d), None, D)


def shuffled(r, cmds, noise):
    """An order with repeats and other objects' queries in between: [(index or None, command)]."""
    out = [(i, q) for i, q in enumerate(cmds)] + [(i, cmds[i]) for i in (r.randrange(len(cmds)) for _ in range(len(cmds) // 3))]
    r.shuffle(out)
    for _ in range(len(cmds) // 4):
        if noise:
            out.insert(r.randint(0, len(out)), (None, r.choice(noise)))
    return out


def ask_shuffled(c, P, D, cmds, noise, kind, why, want):
    o = shuffled(P.r, cmds, noise)
    g = P.ask(D, [q for i, q in o])
    got = [(cmds[i], x, want[i]) for (i, q), x in zip(o, g) if i is not None]
    compare(c, kind, why, [t[0] for t in got], [t[1] for t in got], [t[2] for t in got], D)


def story(c, P, lab, n):
    r = P.r
    cls = r.choice(WORLDS)
    W = cls(c, P, r, lab)
    kind = W.name
    op = OPS[kind]
    # a new object with a short history, in both processes
    cmds = [sub(q, "a") for q in W.new()]
    for _ in range(r.randint(0, 3)):
        cmds += [sub(q, "a") for q in (W.valid() if r.random() < .7 else [W.bad()])]
    P.change(cmds, kind)
    snap = [sub(q, "a") for q in W.snap()]
    want = P.ask(P.a, snap)
    ask_shuffled(c, P, P.b, snap, P.noise, kind, "filled memory, other order", want)
    if r.random() < .4:
        ask_shuffled(c, P, P.a, snap, P.noise, kind, "asked again", want)
    # an object made in the same way once more, where others lived
    if r.random() < .4:
        D = r.choice([P.a, P.b])
        again = [[x if x != "a" else "c" for x in q] if q[0].split(".")[0] in (op, "X", "det", "beam") else q for q in cmds]
        D.raw(again)
        s2 = [sub2(q, "c") for q in snap]
        ask_shuffled(c, P, D, s2, P.noise, kind, "made again", want)
    # copies and assignment
    D = r.choice([P.a, P.b])
    sb = [sub2(q, "b") for q in snap]
    how = r.choice(["copy", "assign", "assign"])
    if how == "assign" and P.used.get((id(D), op)):
        if r.random() < .3:
            D.raw([sub(q, "b") for q in W.valid() + [W.bad()]])      # b has another past
        D.raw([["%s.assign" % op, "b", "a"]])
    else:
        D.raw([["%s.copy" % op, "b", "a"]])
        P.used[(id(D), op)] = 1
    ask_shuffled(c, P, D, sb, P.noise, kind, "copied", want)
    # changes of one do not show in the other
    first, other, names = ("a", "b", sb) if r.random() < .5 else ("b", "a", snap)
    ch = []
    for _ in range(r.randint(1, 3)):
        ch += [sub(q, first) for q in (W.valid() if r.random() < .8 else [W.bad()])]
    if r.random() < .3:
        ch += [sub(q, first) for q in W.new()]
    D.raw(ch)
    ask_shuffled(c, P, D, names, P.noise, kind, "other copy changed", want)
    # an object may be given parts of itself
    if kind in SELF:
        D.raw([["%s.copy" % op, "s1", other], ["%s.copy" % op, "s2", other]])
        for _ in range(r.randint(1, 3)):
            s = r.choice(SELF[kind])
            if kind == "library" and s[0] in ("const", "rad", "non") and r.random() < .8:
                continue
            x, y = D.raw([["%s.self" % op, "s1"] + s + [0], ["%s.self" % op, "s2"] + s + [1]])
            compare(c, kind, "own data by reference", [["%s.self" % op, s]], [norm(x)], [norm(y)], D)
        s1, s2 = [sub2(q, "s1") for q in snap], [sub2(q, "s2") for q in snap]
        compare(c, kind, "own data by reference", s1, P.ask(D, s1), P.ask(D, s2), D)
    P.noise = (P.noise + [sub2(q, "a") for q in r.sample(snap, min(3, len(snap)))])[-40:]
    c.count("stories:" + kind)
    if n % 60 == 0:
        c.sample({"object": kind, "made by": [_j(q) for q in cmds[:4]], "asked": [_j(q) for q in snap[:3]]})


def sub2(q, h):
    """A query of object "a" asked from object h."""
    return [h if x == "a" else x for x in q]


def mirrored(c, P, lab):
    """Random calls of all kinds: both processes must give the same replies."""
    r = P.r
    A = c02_hostile.Args(r, [])
    A.level = r.choice([0.0, .05, .15, .3])
    E = "e0"
    cmds = ([["E.copy", E, lab.h]] if r.random() < .3 or not P.used.get("e0") else []) + c02_hostile.start(A, E)
    P.used["e0"] = 1
    sigs = P.sigs
    cmds += [c02_hostile.make(A, s, E) for s in r.choices(sigs, [s[1] for s in sigs], k=80)]
    ra, rb = P.a.raw(cmds), P.b.raw(cmds)
    for q, x, y in zip(cmds, ra, rb):
        if "harness" in x:
            continue
        c.case(("mirror", q[0], norm(x)), "compared:random calls")
        if norm(x) != norm(y):
            c.fail("memory:" + q[0], "%s gives %s in a process with zeroed memory and %s in one with filled memory" % (_j(q), _j(x), _j(y)), None, P.b)


READS = set("""math.E1 math.En math.deBoerD math.deBoerL0 math.deBoerX math.deBoerV math.erf math.erfc math.fwhm math.isNumber math.isFinite math.bulk ini.vd ini.vi ini.vs ini.d ini.i ini.sub
beam.get beam.rays beam.print tt.get tt.at tt.atv shell.getConst shell.rad shell.non shell.fluo shell.auger shell.ck shell.yield shell.transfer epdl.getb epdl.mu epdl.muv epdl.muall epdl.pw epdl.pwv
el.info el.bind el.excited el.muall el.mu el.muv el.edges el.edgesv el.partial el.rad el.non el.const el.tenergy el.lines el.emitted el.vac el.vacv el.cascade el.fromvac el.exc el.excv el.fluo el.auger el.ck el.indices
el.ccFilled el.cEnabled el.cSize E.defined E.names E.info E.emitted E.non E.rad E.vac E.vacv E.cascade E.fromvac E.const E.getConstFile E.getRadFile E.getNonFile E.muall E.muv E.mu E.mumv E.mum E.create E.material E.materialCopy
E.materials E.formulaComp E.comp E.compM E.compMM E.parse E.excv E.exc E.families E.familiesV E.bind E.escape E.escEnabled E.ccFilled E.cEnabled E.cSize E.s2d E.d2s mat.get layer.get layer.comp layer.trans layer.transv
layer.mu layer.muv layer.families det.get det.trans det.transv det.mu det.muv det.families det.comp X.config X.geff X.ethreshold X.multi X.fluo X.one X.lcomp X.lmu X.lmuv X.ltrans X.ltransv X.lfamilies""".split())


def reordered(c, P, lab):
    """Queries of every kind, each asked of two processes at different moments of different histories."""
    r = P.r
    A = c02_hostile.Args(r, [])
    A.level = r.choice([0.0, 0.0, .05, .15])
    E = "e0"
    for D in (P.a, P.b):
        D.raw(([["E.copy", E, lab.h]] if not P.used.get("e0") else []))
    P.used["e0"] = 1
    cmds = c02_hostile.start(A, E) + [["epdl.new", "h%d" % k, lab.dir] for k in range(2) if r.random() < .2]
    ra, rb = P.a.raw(cmds), P.b.raw(cmds)
    qs = [q for q in (c02_hostile.make(A, s, E) for s in r.choices(P.reads, k=70))]
    want = P.ask(P.a, qs)
    ask_shuffled(c, P, P.b, qs, P.noise, "any", "other moment", want)
    ask_shuffled(c, P, P.a, qs, [], "any", "asked again", want)


def second_library(c, P, lab):
    """Loaded again after everything that happened: the same library."""
    for D in (P.a, P.b):
        D.raw([["E.new", "again", lab.dir, 1] if lab.mode == "pymca" else ["E.new", "again", lab.dir]])
        W = Library(c, P, P.r, lab)
        W.names = []
        snap = W.snap()
        g, w = P.ask(D, [sub2(sub(q, "a"), "again") for q in snap]), P.ask(D, [sub2(sub(q, "a"), lab.h) for q in snap])
        g = [x for q, x in zip(snap, g) if q[0] not in ("E.materials", "E.material")]
        w = [x for q, x in zip(snap, w) if q[0] not in ("E.materials", "E.material")]
        compare(c, "library", "loaded again", [q for q in snap if q[0] not in ("E.materials", "E.material")], g, w, D)
        D.raw([["E.del", "again"]])


def worker(c, w):
    r = c.rng
    t0 = time.time()
    P = Pair(c)
    P.r = r
    lab = Lab(c, ["default", "pymca"][w % 2], driver=P.a)
    Setups.G = xrfgen.Gen(lab, r)
    P.a.raw([["layer.new", "probe", "SiO2", 2.0, .01, 1.0], ["det.new", "probe", "Ge", 5.3, .1, 1.0]])
    P.a.raw([["epdl.new", "P", lab.dir]])
    P.b.raw(list(P.a.log))
    P.noise, P.used = [], {}
    P.sigs = [s for s in c02_hostile.signatures() if "path" not in s[2]]
    P.reads = [s for s in P.sigs if s[0] in READS]
    n = 0
    while time.time() - t0 < c.size(20, 780):
        n += 1
        if n % 4 == 0:
            mirrored(c, P, lab)
        elif n % 4 == 2:
            reordered(c, P, lab)
        else:
            story(c, P, lab, n)
        if n % 60 == 30 or n == 10:
            second_library(c, P, lab)


def memcheck(c):
    """Everything a library does under valgrind: no decision on uninitialised values."""
    r = c.rng
    D = c.driver("mem", timeout=800, prefix=["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes"])
    t0 = time.time()
    lab = Lab(c, "default", driver=D)
    Setups.G = xrfgen.Gen(lab, r)
    D.raw([["layer.new", "probe", "SiO2", 2.0, .01, 1.0], ["det.new", "probe", "Ge", 5.3, .1, 1.0]])
    while time.time() - t0 < 700:
        W = r.choice(WORLDS)(c, D, r, lab)
        cmds = [sub(q, "a") for q in W.new() + W.valid() + [W.bad()] + W.valid() + W.snap()]
        for q, g in zip(cmds, D.raw(cmds)):
            c.case(("memcheck", q[0], norm(g)), "memcheck_calls")


def main(c):
    for k in ("zero", "pattern") + (("mem",) if c.thorough else ()):
        build.build(k)
    c.datadir(1 + c.seed % 3)
    c.fork(8, lambda c, w: memcheck(c) if c.thorough and w == 7 else worker(c, w))


if __name__ == "__main__":
    Check("C04", RULE).run(main)
