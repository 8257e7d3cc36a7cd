"""Command driver over the Python package: the same commands as driver.cpp,
answered through fisx, with the arguments in varying Python forms.

usage: pydriver.py PACKAGE_DIR DATA_DIR"""
import array, collections, gc, hashlib, json, os, random, sys, threading
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import numpy
import fisx
import fisx.DataDir

OBJ = {}


class Forms(object):
    """Values as a Python caller may write them; remembers containers to see that calls leave them alone."""
    def __init__(self, r):
        self.r = r
        self.held = []
        self.used = set()

    def _use(self, what):
        self.used.add(what)

    def s(self, v):
        m = self.r.random()
        if m < .3:
            self._use("bytes")
            return v.encode("utf-8", "surrogateescape")
        if m < .4:
            self._use("numpy.str_")
            return numpy.str_(v) if "\x00" not in v else v
        self._use("str")
        return v

    def d(self, v):
        m = self.r.random()
        if m < .2:
            self._use("numpy.float64")
            return numpy.float64(v)
        if m < .3 and v == v and abs(v) < 1e15 and v == int(v) and (v or str(v)[0] != "-"):
            self._use("int for float")
            return int(v)
        return float(v)

    def i(self, v):
        m = self.r.random()
        if m < .2:
            self._use("numpy.int64")
            return numpy.int64(v)
        if m < .35 and v in (0, 1):
            self._use("bool")
            return bool(v)
        return v

    def hold(self, o, copy):
        self.held.append((o, copy))
        return o

    def vd(self, v):
        v = [float(x) for x in v]
        m = self.r.random()
        if m < .25:
            self._use("tuple")
            return tuple(v)
        if m < .5:
            self._use("ndarray")
            a = numpy.array(v, dtype=numpy.float64)
            if m < .32 and len(v):
                self._use("strided ndarray")
                b = numpy.zeros(2 * len(v))
                b[::2] = a
                a = b[::2]
            elif m < .37:
                self._use("read-only ndarray")
                a.setflags(write=False)
            return self.hold(a, a.tolist())
        if m < .55:
            self._use("array.array")
            a = array.array("d", v)
            return self.hold(a, list(a))
        if m < .65:
            self._use("mixed list")
            o = [self.d(x) for x in v]
            return self.hold(o, list(o))
        self._use("list")
        return self.hold(v, list(v))

    def vi(self, v):
        m = self.r.random()
        if m < .25:
            return tuple(v)
        if m < .45:
            return self.hold(numpy.array(v, dtype=numpy.int32), list(v))
        return self.hold(list(v), list(v))

    def vs(self, v):
        o = [self.s(x) for x in v]
        if self.r.random() < .3:
            self._use("tuple of texts")
            return tuple(o)
        return self.hold(o, list(o))

    def md(self, v):
        o = {} if self.r.random() < .8 else collections.OrderedDict()
        items = list(v.items())
        if self.r.random() < .3:
            self.r.shuffle(items)
        for k, x in items:
            o[self.s(k)] = self.d(x)
        return self.hold(o, dict(o))

    def opt(self, kw, p=.5):
        """Optional trailing arguments: by position or by name."""
        return self.r.random() < p

    def check(self):
        for o, c in self.held:
            now = o.tolist() if isinstance(o, numpy.ndarray) else list(o) if not isinstance(o, dict) else dict(o)
            if repr(now) != repr(c) and repr(now) != repr(list(c)):
                return "input changed from %r to %r" % (c, now)
        return None


def call(f, fn, args, names):
    """names: parameter names of the trailing arguments that may be given by keyword."""
    k = len(names)
    if k and f.r.random() < .4:
        n = f.r.randint(1, k)
        f._use("keyword arguments")
        return fn(*args[:len(args) - n], **dict(zip(names[-n:], args[len(args) - n:])))
    return fn(*args)


def o(kind, h):
    return OBJ[(kind, h)]


def put(kind, h, v):
    OBJ[(kind, h)] = v
    if len(OBJ) % 7 == 0:
        gc.collect()


def material_layer(f, spec):
    l = fisx.Layer(f.s(spec[0]), f.d(spec[1]), f.d(spec[2]), f.d(spec[3] if len(spec) > 3 else 1.0))
    if len(spec) > 4:
        l.setMaterial(o("mat", spec[4]))
    return l


def layers(f, specs):
    if any(isinstance(x, str) or len(x) > 4 for x in specs) or f.r.random() < .55:
        f._use("layer objects")
        # equal layers may be one object given several times
        known = {} if f.r.random() < .75 else None
        out = []
        for x in specs:
            if isinstance(x, str):
                out.append(o("layer", x))
            elif known is None:
                out.append(material_layer(f, x))
            else:
                if repr(x) not in known:
                    known[repr(x)] = material_layer(f, x)
                out.append(known[repr(x)])
    elif all(len(x) < 4 or x[3] == 1.0 for x in specs) and f.r.random() < .5:
        f._use("layers of three values")
        out = [[f.s(x[0]), f.d(x[1]), f.d(x[2])] for x in specs]
    else:
        f._use("layers of four values")
        out = [[f.s(x[0]), f.d(x[1]), f.d(x[2]), f.d(x[3] if len(x) > 3 else 1.0)] for x in specs]
    if f.r.random() < .3:
        return tuple(tuple(x) if isinstance(x, list) else x for x in out)
    return out


def one_layer(f, spec):
    return o("layer", spec) if isinstance(spec, str) else material_layer(f, spec)


def tables(f, hs):
    ts = [o("tt", h) for h in hs]
    m = f.r.random()
    if m < .5 or not ts:
        f._use("table objects")
        return ts
    out = []
    three = f.r.random() < .5
    f._use("tables of three values" if three else "tables of four values")
    for t in ts:
        d = t.getTransmissionTable()
        if three:
            out.append([d, f.s(t.getName()), f.s(t.getComment())])
        else:
            out.append([f.vd(sorted(d)), f.vd([d[k] for k in sorted(d)]), f.s(t.getName()), f.s(t.getComment())])
    return out


def make_elements(f, a):
    d = a[1]
    if len(a) == 2:
        if d == sys.argv[2] and f.r.random() < .4:
            f._use("default directory")
            return fisx.Elements()
        return call(f, fisx.Elements, [f.s(d)], ["directoryName"])
    if len(a) == 3:
        if not a[2]:
            return fisx.Elements(f.s(d), pymca=f.i(0))
        if d == sys.argv[2] and f.r.random() < .5:
            f._use("initializeAsPyMca")
            e = fisx.Elements(f.s(d))
            e.initializeAsPyMca()
            return e
        return fisx.Elements(f.s(d), pymca=f.i(1))
    return call(f, fisx.Elements, [f.s(d), f.s(a[2]), f.s(a[3])], ["bindingEnergiesFile", "crossSectionsFile"])


def scalar_or_one(f, e):
    """A single energy, as itself."""
    return f.d(e)


def first(r):
    return {k: v[0] for k, v in r.items()}


def only(v):
    if len(v) != 1:
        raise AssertionError("one value expected: %r" % (v,))
    return v[0]


def fluo(f, a, beamat):
    kw = {}
    if a[beamat] is not None:
        kw["overwritingBeam"] = o("beam", a[beamat])
    return kw


def x_fluo(f, a):
    els, ls, fams = a[2], a[3], a[4]
    e = f.vs(els)
    if len(els) == 1 and f.r.random() < .4:
        f._use("single element")
        e = f.s(els[0])
    l = f.vi(ls)
    if len(ls) == 1 and f.r.random() < .5:
        f._use("single layer index")
        l = int(ls[0])
    m = f.vs(fams)
    if len(fams) == 1 and f.r.random() < .5:
        f._use("single family")
        m = f.s(fams[0])
    if ls == [0] and fams == ["K"] and a[5:9] == [0, 1, 0, 0.0] and f.r.random() < .3:
        f._use("defaults")
        return o("X", a[0]).getFluorescence(e, o("E", a[1]), **fluo(f, a, 9))
    return call(f, lambda *p, **k: o("X", a[0]).getFluorescence(*p, **dict(k, **fluo(f, a, 9))), [e, o("E", a[1]), l, m, f.i(a[5]), f.i(a[6]), f.i(a[7]), f.d(a[8])],
                ["sampleLayer", "lineFamily", "secondary", "useGeometricEfficiency", "useMassFractions", "secondaryCalculationLimit"])


def x_multi(f, a):
    e = f.vs(a[2])
    if a[3:7] == [0, 1, 0, 0.0] and f.r.random() < .3:
        f._use("defaults")
        return o("X", a[0]).getMultilayerFluorescence(e, o("E", a[1]), **fluo(f, a, 7))
    return call(f, lambda *p, **k: o("X", a[0]).getMultilayerFluorescence(*p, **dict(k, **fluo(f, a, 7))), [e, o("E", a[1]), f.i(a[3]), f.i(a[4]), f.i(a[5]), f.d(a[6])],
                ["secondary", "useGeometricEfficiency", "useMassFractions", "secondaryCalculationLimit"])


def x_beam(f, a):
    x = o("X", a[0])
    e, w, c, d = a[1:5]
    if w == [1.0] * len(e) and c == [1] * len(e) and d == [0.0] * len(e) and f.r.random() < .7:
        f._use("beam without weights")
        return x.setBeam(f.vd(e))
    if c == [1] * len(e) and d == [0.0] * len(e) and f.r.random() < .5:
        return x.setBeam(f.vd(e), f.vd(w))
    return call(f, x.setBeam, [f.vd(e), f.vd(w), f.vi(c), f.vd(d)], ["weights", "characteristic", "divergency"])


def beam_set(f, a):
    b = o("beam", a[0])
    e, w, c, d = a[1:5]
    if c or d:
        raise NotImplementedError()
    if not w:
        f._use("beam without weights")
        return b.setBeam(f.vd(e), *f.r.choice([[], [None], [f.vd(w)]]))
    if w == [1.0] * len(e) and f.r.random() < .5:
        if len(e) == 1 and f.r.random() < .5:
            f._use("single energy")
            return b.setBeam(f.d(e[0]))
        f._use("beam without weights")
        return b.setBeam(f.vd(e), *([None] if f.r.random() < .5 else []))
    if len(e) == 1 and len(w) == 1 and f.r.random() < .4:
        f._use("single energy")
        return b.setBeam(f.d(e[0]), f.d(w[0]))
    return b.setBeam(f.vd(e), f.vd(w))


def table_map(f, pairs):
    return {f.d(k): f.d(v) for k, v in pairs}


def info(f, a):
    e, n = o("E", a[0]), a[1]
    return [n, e.getAtomicNumber(f.s(n)), e.getAtomicMass(f.s(n)), e.getDensity(f.s(n)), e.getLongName(f.s(n)), e.getColumn(f.s(n)), e.getRow(f.s(n))]


def det_get(f, a):
    d = o("det", a[0])
    return {"area": d.getActiveArea(), "diameter": d.getDiameter(), "distance": d.getDistance(), "minE": d.getEscapePeakEnergyThreshold(), "minI": d.getEscapePeakIntensityThreshold(),
            "nesc": d.getEscapePeakNThreshold(), "thickness": d.getThickness(), "density": d.getDensity()}


def elements_mu(f, a, vector):
    e = o("E", a[0])
    fn = e.getMassAttenuationCoefficients if f.r.random() < .7 else e.getElementMassAttenuationCoefficients
    if vector:
        return fn(f.s(a[1]), f.vd(a[2]))
    return first(fn(f.s(a[1]), f.d(a[2])))


def maybe(f, fn, args, names, default, p=.3):
    """Leave out the trailing arguments when they have their default values."""
    k = len(default)
    if k and args[len(args) - k:] == list(default) and f.r.random() < p:
        f._use("defaults")
        return fn(*args[:len(args) - k])
    return call(f, fn, args, names)


def ints(v):
    if v != int(v) or isinstance(v, float):
        raise AssertionError("integer expected: %r" % (v,))
    return v


MATH = fisx.Math()
OPS = {
    "ping": lambda f, a: "pong",
    "version": lambda f, a: fisx.fisxVersion() if f.r.random() < .5 else fisx.version(),
    "math.E1": lambda f, a: MATH.E1(f.d(a[0])),
    "math.En": lambda f, a: MATH.En(f.i(a[0]), f.d(a[1])),
    "math.deBoerD": lambda f, a: MATH.deBoerD(f.d(a[0])),
    "math.deBoerL0": lambda f, a: maybe(f, MATH.deBoerL0, [f.d(x) for x in a], ["density", "thickness"], [0.0, 0.0]),
    "math.deBoerX": lambda f, a: maybe(f, MATH.deBoerX, [f.d(x) for x in a], ["mu_b_d_t"], [0.0]),
    "math.erf": lambda f, a: MATH.erf(f.d(a[0])),
    "math.erfc": lambda f, a: MATH.erfc(f.d(a[0])),
    "beam.new": lambda f, a: put("beam", a[0], fisx.Beam()),
    "beam.set": beam_set,
    "beam.get": lambda f, a: o("beam", a[0]).getBeamAsDoubleVectors(),
    "tt.new": lambda f, a: put("tt", a[0], fisx.TransmissionTable()),
    "tt.setMap": lambda f, a: maybe(f, o("tt", a[0]).setTransmissionTable, [table_map(f, a[1]), f.s(a[2]), f.s(a[3])], ["name", "comment"], ["", ""]),
    "tt.setVec": lambda f, a: maybe(f, o("tt", a[0]).setTransmissionTableFromLists, [f.vd(a[1]), f.vd(a[2]), f.s(a[3]), f.s(a[4])], ["name", "comment"], ["", ""]),
    "tt.name": lambda f, a: o("tt", a[0]).setName(f.s(a[1])),
    "tt.comment": lambda f, a: o("tt", a[0]).setComment(f.s(a[1])),
    "tt.get": lambda f, a: [o("tt", a[0]).getName(), o("tt", a[0]).getComment(), o("tt", a[0]).getTransmissionTable()],
    "tt.at": lambda f, a: o("tt", a[0]).getTransmission(f.d(a[1])),
    "tt.atv": lambda f, a: o("tt", a[0]).getTransmission(f.vd(a[1])),
    "ini.new": lambda f, a: put("ini", a[0], fisx.SimpleIni(f.s(a[1]))),
    "ini.sections": lambda f, a: o("ini", a[0]).getKeys(),
    "ini.section": lambda f, a: o("ini", a[0]).readKey(f.s(a[1])),
    "spec.new": lambda f, a: put("spec", a[0], fisx.SimpleSpecfile(f.s(a[1]))),
    "spec.n": lambda f, a: o("spec", a[0]).getNumberOfScans(),
    "spec.labels": lambda f, a: o("spec", a[0]).getScanLabels(f.i(a[1])),
    "spec.data": lambda f, a: o("spec", a[0]).getScanData(f.i(a[1])),
    "shell.new": lambda f, a: put("shell", a[0], fisx.Shell(f.s(a[1]))),
    "shell.radv": lambda f, a: o("shell", a[0]).setRadiativeTransitions(f.vs(a[1]), f.vd(a[2])),
    "shell.nonv": lambda f, a: o("shell", a[0]).setNonradiativeTransitions(f.vs(a[1]), f.vd(a[2])),
    "shell.const": lambda f, a: o("shell", a[0]).setShellConstants(f.md(a[1])),
    "shell.getConst": lambda f, a: o("shell", a[0]).getShellConstants(),
    "shell.rad": lambda f, a: o("shell", a[0]).getRadiativeTransitions(),
    "shell.non": lambda f, a: o("shell", a[0]).getNonradiativeTransitions(),
    "shell.fluo": lambda f, a: o("shell", a[0]).getFluorescenceRatios(),
    "shell.auger": lambda f, a: o("shell", a[0]).getAugerRatios(),
    "shell.ck": lambda f, a: o("shell", a[0]).getCosterKronigRatios(),
    "shell.transfer": lambda f, a: o("shell", a[0]).getDirectVacancyTransferRatios(f.s(a[1])),
    "epdl.new": lambda f, a: put("epdl", a[0], fisx.EPDL97(f.s(a[1])) if a[1] != sys.argv[2] or f.r.random() < .6 else fisx.EPDL97()),
    "epdl.dir": lambda f, a: o("epdl", a[0]).setDataDirectory(f.s(a[1])),
    "epdl.setb": lambda f, a: o("epdl", a[0]).setBindingEnergies(f.i(a[1]), f.md(a[2])),
    "epdl.getb": lambda f, a: o("epdl", a[0]).getBindingEnergies(f.i(a[1])),
    "epdl.mu": lambda f, a: first(o("epdl", a[0]).getMassAttenuationCoefficients(f.i(a[1]), f.d(a[2]))),
    "epdl.muv": lambda f, a: o("epdl", a[0]).getMassAttenuationCoefficients(f.i(a[1]), f.vd(a[2])),
    "epdl.muall": lambda f, a: o("epdl", a[0]).getMassAttenuationCoefficients(f.i(a[1])),
    "epdl.pw": lambda f, a: first(o("epdl", a[0]).getPhotoelectricWeights(f.i(a[1]), f.d(a[2]))),
    "epdl.pwv": lambda f, a: o("epdl", a[0]).getPhotoelectricWeights(f.i(a[1]), f.vd(a[2])),
    "el.new": lambda f, a: put("el", a[0], call(f, fisx.Element, [f.s(a[1]), f.i(a[2])], ["z"])),
    "el.setName": lambda f, a: o("el", a[0]).setName(f.s(a[1])),
    "el.setZ": lambda f, a: o("el", a[0]).setAtomicNumber(f.i(a[1])),
    "el.info": lambda f, a: {"z": o("el", a[0]).getAtomicNumber()},
    "el.bindm": lambda f, a: o("el", a[0]).setBindingEnergies(f.md(a[1])),
    "el.bind": lambda f, a: o("el", a[0]).getBindingEnergies(),
    "el.setMu": lambda f, a: o("el", a[0]).setMassAttenuationCoefficients(*[f.vd(x) for x in a[1:6]]),
    "el.muall": lambda f, a: o("el", a[0]).getMassAttenuationCoefficients(),
    "el.mu": lambda f, a: first(o("el", a[0]).getMassAttenuationCoefficients(f.d(a[1]))),
    "el.muv": lambda f, a: o("el", a[0]).getMassAttenuationCoefficients(f.vd(a[1])),
    "el.radv": lambda f, a: o("el", a[0]).setRadiativeTransitions(f.s(a[1]), f.vs(a[2]), f.vd(a[3])),
    "el.rad": lambda f, a: o("el", a[0]).getRadiativeTransitions(f.s(a[1])),
    "el.nonv": lambda f, a: o("el", a[0]).setNonradiativeTransitions(f.s(a[1]), f.vs(a[2]), f.vd(a[3])),
    "el.non": lambda f, a: o("el", a[0]).getNonradiativeTransitions(f.s(a[1])),
    "el.setConst": lambda f, a: o("el", a[0]).setShellConstants(f.s(a[1]), f.md(a[2])),
    "el.const": lambda f, a: o("el", a[0]).getShellConstants(f.s(a[1])),
    "el.fromvac": lambda f, a: o("el", a[0]).getXRayLinesFromVacancyDistribution(f.md(a[1])),
    "E.new": lambda f, a: put("E", a[0], make_elements(f, a)),
    "E.names": lambda f, a: o("E", a[0]).getElementNames(),
    "E.info": info,
    "E.emitted": lambda f, a: maybe(f, o("E", a[0]).getEmittedXRayLines, [f.s(a[1]), f.d(a[2])], ["energy"], [1000.0], .6),
    "E.non": lambda f, a: o("E", a[0]).getNonradiativeTransitions(f.s(a[1]), f.s(a[2])),
    "E.rad": lambda f, a: o("E", a[0]).getRadiativeTransitions(f.s(a[1]), f.s(a[2])),
    "E.vac": lambda f, a: o("E", a[0]).getInitialPhotoelectricVacancyDistribution(f.s(a[1]), f.d(a[2])),
    "E.cascade": lambda f, a: o("E", a[0]).getCascadeModifiedVacancyDistribution(f.s(a[1]), f.md(a[2])),
    "E.fromvac": lambda f, a: maybe(f, o("E", a[0]).getXRayLinesFromVacancyDistribution, [f.s(a[1]), f.md(a[2]), f.i(a[3]), f.i(a[4])], ["cascade", "useFluorescenceYield"], [1, 1]),
    "E.const": lambda f, a: o("E", a[0]).getShellConstants(f.s(a[1]), f.s(a[2])),
    "E.constFile": lambda f, a: o("E", a[0]).setShellConstantsFile(f.s(a[1]), f.s(a[2])),
    "E.radFile": lambda f, a: o("E", a[0]).setShellRadiativeTransitionsFile(f.s(a[1]), f.s(a[2])),
    "E.getConstFile": lambda f, a: o("E", a[0]).getShellConstantsFile(f.s(a[1])),
    "E.getRadFile": lambda f, a: o("E", a[0]).getShellRadiativeTransitionsFile(f.s(a[1])),
    "E.getNonFile": lambda f, a: o("E", a[0]).getShellNonradiativeTransitionsFile(f.s(a[1])),
    "E.muFile": lambda f, a: o("E", a[0]).setMassAttenuationCoefficientsFile(f.s(a[1])),
    "E.setMu": lambda f, a: o("E", a[0]).setMassAttenuationCoefficients(f.s(a[1]), *[f.vd(x) for x in a[2:7]]),
    "E.muall": lambda f, a: (o("E", a[0]).getMassAttenuationCoefficients if f.r.random() < .5 else o("E", a[0]).getElementMassAttenuationCoefficients)(f.s(a[1])),
    "E.muv": lambda f, a: elements_mu(f, a, True),
    "E.mu": lambda f, a: elements_mu(f, a, False),
    "E.mumv": lambda f, a: o("E", a[0]).getMassAttenuationCoefficients(f.md(a[1]), f.vd(a[2])),
    "E.mum": lambda f, a: first(o("E", a[0]).getMassAttenuationCoefficients(f.md(a[1]), f.d(a[2]))),
    "E.materials": lambda f, a: o("E", a[0]).getMaterialNames(),
    "E.addMaterial": lambda f, a: maybe(f, o("E", a[0]).addMaterial, [o("mat", a[1]), f.i(a[2])], ["errorOnReplace"], [1]),
    "E.removeMaterials": lambda f, a: o("E", a[0]).removeMaterials(),
    "E.comp": lambda f, a: o("E", a[0]).getComposition(f.s(a[1])),
    "E.excv": lambda f, a: maybe(f, o("E", a[0]).getExcitationFactors, [f.s(a[1]), f.vd(a[2])], [], []) if a[3] == [1.0] * len(a[2]) and f.r.random() < .6 else call(f, o("E", a[0]).getExcitationFactors, [f.s(a[1]), f.vd(a[2]), f.vd(a[3])], ["weight"]),
    "E.exc": lambda f, a: o("E", a[0]).getExcitationFactors(f.s(a[1]), f.d(a[2])) if a[3] == 1.0 and f.r.random() < .6 else o("E", a[0]).getExcitationFactors(f.s(a[1]), f.d(a[2]), f.d(a[3])),
    "E.families": lambda f, a: o("E", a[0]).getPeakFamilies(f.s(a[1]), f.d(a[2])),
    "E.familiesV": lambda f, a: o("E", a[0]).getPeakFamilies((list if f.r.random() < .6 else tuple)(f.s(x) for x in a[1]), f.d(a[2])),
    "E.bind": lambda f, a: o("E", a[0]).getBindingEnergies(f.s(a[1])),
    "E.escape": lambda f, a: maybe(f, o("E", a[0]).getEscape, [f.md(a[1]), f.d(a[2]), f.d(a[3]), f.d(a[4]), f.i(a[5]), f.d(a[6]), f.d(a[7])],
                                   ["energyThreshold", "intensityThreshold", "nThreshold", "alphaIn", "thickness"], [0.010, 1.0e-7, 4, 90., 0.0], .7),
    "E.escUpdate": lambda f, a: maybe(f, o("E", a[0]).updateEscapeCache, [f.md(a[1]), f.vd(a[2]), f.d(a[3]), f.d(a[4]), f.i(a[5]), f.d(a[6]), f.d(a[7])],
                                      ["energyThreshold", "intensityThreshold", "nThreshold", "alphaIn", "thickness"], [0.010, 1.0e-7, 4, 90., 0.0], .7),
    "E.escEnable": lambda f, a: maybe(f, o("E", a[0]).setEscapeCacheEnabled, [f.i(a[1])], ["flag"], [1]),
    "E.escEnabled": lambda f, a: o("E", a[0]).isEscapeCacheEnabled(),
    "E.ccEnable": lambda f, a: maybe(f, o("E", a[0]).setElementCascadeCacheEnabled, [f.s(a[1]), f.i(a[2])], ["flag"], [1]),
    "E.ccEmpty": lambda f, a: o("E", a[0]).emptyElementCascadeCache(f.s(a[1])),
    "E.cFill": lambda f, a: o("E", a[0]).fillCache(f.s(a[1]), f.vd(a[2])),
    "E.cUpdate": lambda f, a: o("E", a[0]).updateCache(f.s(a[1]), f.vd(a[2])),
    "E.cClear": lambda f, a: o("E", a[0]).clearCache(f.s(a[1])),
    "E.cEnable": lambda f, a: maybe(f, o("E", a[0]).setCacheEnabled, [f.s(a[1]), f.i(a[2])], ["flag"], [1]),
    "E.cEnabled": lambda f, a: o("E", a[0]).isCacheEnabled(f.s(a[1])),
    "E.cSize": lambda f, a: ints(o("E", a[0]).getCacheSize(f.s(a[1]))),
    "mat.new": lambda f, a: put("mat", a[0], maybe(f, fisx.Material, [f.s(a[1]), f.d(a[2]), f.d(a[3]), f.s(a[4])], ["density", "thickness", "comment"], [1.0, 1.0, ""])),
    "mat.setName": lambda f, a: o("mat", a[0]).setName(f.s(a[1])),
    "mat.compM": lambda f, a: o("mat", a[0]).setComposition(f.md(a[1])),
    "mat.compV": lambda f, a: o("mat", a[0]).setCompositionFromLists(f.vs(a[1]), f.vd(a[2])),
    "mat.get": lambda f, a: {"name": o("mat", a[0]).getName(), "comp": o("mat", a[0]).getComposition()},
    "layer.new": lambda f, a: put("layer", a[0], maybe(f, fisx.Layer, [f.s(a[1]), f.d(a[2]), f.d(a[3]), f.d(a[4])], ["density", "thickness", "funny"], [1.0], .5)),
    "layer.matM": lambda f, a: o("layer", a[0]).setMaterial(o("mat", a[1])),
    "layer.comp": lambda f, a: o("layer", a[0]).getComposition(o("E", a[1])),
    "layer.trans": lambda f, a: only(maybe(f, o("layer", a[0]).getTransmission, [f.d(a[1]), o("E", a[2]), f.d(a[3])], ["angle"], [90.0])),
    "layer.transv": lambda f, a: maybe(f, o("layer", a[0]).getTransmission, [f.vd(a[1]), o("E", a[2]), f.d(a[3])], ["angle"], [90.0]),
    "layer.families": lambda f, a: o("layer", a[0]).getPeakFamilies(f.d(a[1]), o("E", a[2])),
    "det.new": lambda f, a: put("det", a[0], maybe(f, fisx.Detector, [f.s(a[1]), f.d(a[2]), f.d(a[3]), f.d(a[4])], ["density", "thickness", "funny"], [1.0], .5)),
    "det.area": lambda f, a: o("det", a[0]).setActiveArea(f.d(a[1])),
    "det.diameter": lambda f, a: o("det", a[0]).setDiameter(f.d(a[1])),
    "det.distance": lambda f, a: o("det", a[0]).setDistance(f.d(a[1])),
    "det.nesc": lambda f, a: o("det", a[0]).setMaximumNumberOfEscapePeaks(f.i(a[1])),
    "det.get": det_get,
    "det.escape": lambda f, a: maybe(f, o("det", a[0]).getEscape, [f.d(a[1]), o("E", a[2]), f.s(a[3]), f.i(a[4])], ["label", "update"], ["", 1], .6),
    "det.trans": lambda f, a: only(maybe(f, o("det", a[0]).getTransmission, [f.d(a[1]), o("E", a[2]), f.d(a[3])], ["angle"], [90.0])),
    "det.transv": lambda f, a: maybe(f, o("det", a[0]).getTransmission, [f.vd(a[1]), o("E", a[2]), f.d(a[3])], ["angle"], [90.0]),
    "det.comp": lambda f, a: o("det", a[0]).getComposition(o("E", a[1])),
    "X.new": lambda f, a: put("X", a[0], call(f, fisx.XRF, [f.s(a[1])], ["configurationFile"]) if len(a) > 1 else fisx.XRF()),
    "X.read": lambda f, a: o("X", a[0]).readConfigurationFromFile(f.s(a[1])),
    "X.beam": x_beam,
    "X.single": lambda f, a: o("X", a[0]).setBeam(f.d(a[1])) if a[2] == 0 and f.r.random() < .5 else o("X", a[0]).setBeam(f.d(a[1]), divergency=f.d(a[2])),
    "X.filters": lambda f, a: o("X", a[0]).setBeamFilters(layers(f, a[1])),
    "X.ufilters": lambda f, a: o("X", a[0]).setUserBeamFilters(tables(f, a[1])),
    "X.sample": lambda f, a: maybe(f, o("X", a[0]).setSample, [layers(f, a[1]), f.i(a[2])], ["referenceLayer"], [0], .5),
    "X.attenuators": lambda f, a: o("X", a[0]).setAttenuators(layers(f, a[1])),
    "X.uattenuators": lambda f, a: o("X", a[0]).setUserAttenuators(tables(f, a[1])),
    "X.detector": lambda f, a: o("X", a[0]).setDetector(o("det", a[1])),
    "X.geometry": lambda f, a: o("X", a[0]).setGeometry(f.d(a[1]), f.d(a[2])) if a[3] < 0 and f.r.random() < .7 else call(f, o("X", a[0]).setGeometry, [f.d(a[1]), f.d(a[2]), f.d(a[3])], ["scatteringAngle"]),
    "X.geff": lambda f, a: maybe(f, o("X", a[0]).getGeometricEfficiency, [f.i(a[1])], ["layerIndex"], [0], .5),
    "X.multi": x_multi,
    "X.fluo": x_fluo,
    "X.lcomp": lambda f, a: o("X", a[0]).getLayerComposition(one_layer(f, a[1]), o("E", a[2])),
    "X.lmu": lambda f, a: o("X", a[0]).getLayerMassAttenuationCoefficients(one_layer(f, a[1]), f.d(a[2]), o("E", a[3])),
    "X.lmuv": lambda f, a: o("X", a[0]).getLayerMassAttenuationCoefficients(one_layer(f, a[1]), f.vd(a[2]), o("E", a[3])),
    "X.ltrans": lambda f, a: maybe(f, o("X", a[0]).getLayerTransmission, [one_layer(f, a[1]), f.d(a[2]), o("E", a[3]), f.d(a[4])], ["angle"], [90.0]),
    "X.ltransv": lambda f, a: maybe(f, o("X", a[0]).getLayerTransmission, [one_layer(f, a[1]), f.vd(a[2]), o("E", a[3]), f.d(a[4])], ["angle"], [90.0]),
    "X.lfamilies": lambda f, a: o("X", a[0]).getLayerPeakFamilies(one_layer(f, a[1]), f.d(a[2]), o("E", a[3])),
}


def key(k):
    if isinstance(k, str):
        return k
    if isinstance(k, bytes):
        return "bytes:" + repr(k)
    if isinstance(k, float):
        return repr(k)
    if isinstance(k, int):
        return str(k)
    return "?" + repr(k)


def encode(v):
    """Nested answer; anything that is not plain text, number, list or dictionary shows as such."""
    if v is None or isinstance(v, (bool, int, float)) and type(v) in (bool, int, float):
        return v
    if isinstance(v, float) and type(v) is numpy.float64:
        return float(v)
    if type(v) is str:
        return v
    if isinstance(v, bytes):
        return "bytes:" + repr(v)
    if type(v) in (list, tuple):
        return [encode(x) for x in v]
    if isinstance(v, dict):
        return {key(k): encode(x) for k, x in v.items()}
    return "?" + repr(v)


def answer(cmd, salt):
    f = Forms(random.Random(hashlib.md5((json.dumps(cmd) + str(salt)).encode()).hexdigest()))
    fn = OPS.get(cmd[0])
    if fn is None:
        return {"harness": "no such operation"}
    try:
        v = encode(fn(f, cmd[1:]))
    except NotImplementedError:
        return {"harness": "no such form"}
    except KeyError as e:
        if e.args and isinstance(e.args[0], tuple):
            return {"harness": "no handle %r" % (e.args[0],)}
        return {"err": ["KeyError", str(e)], "forms": sorted(f.used)}
    except Exception as e:
        return {"err": [type(e).__name__, str(e)], "forms": sorted(f.used)}
    bad = f.check()
    if bad:
        v = bad
    return {"ok": v, "forms": sorted(f.used)}


def parallel(cmds, n, salt):
    out = [None] * len(cmds)
    barrier = threading.Barrier(n)

    def run(k):
        barrier.wait()
        for i in range(k, len(cmds), n):
            out[i] = answer(cmds[i], salt)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return {"ok": out}


def main():
    fisx.DataDir.FISX_DATA_DIR = sys.argv[2]
    sys.setswitchinterval(1e-4)
    # the library prints its diagnostics on stdout: answers get their own copy
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    n = 0
    for line in sys.stdin.buffer:
        cmd = json.loads(line.decode("utf-8", "surrogateescape"))
        n += 1
        if cmd[0] == "par":
            r = parallel(cmd[2], cmd[1], n)
        else:
            r = answer(cmd, n)
        out.write((json.dumps(r, allow_nan=True) + "\n").encode("utf-8", "surrogateescape"))
        out.flush()


main()
