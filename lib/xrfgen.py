"""Random fluorescence setups, applied to the library and described for the reference model.

A setup is a dict as refxrf.multilayer expects it; every layer also carries
"mat": the name the library gets, "own": True when it is given as a material
object with its composition, and "how": the composition as the user writes it."""
from common import *
import time
import matgen, refxrf


def interp(points, x):
    """Transmission of a user table (sorted list of points)."""
    import bisect
    if x <= points[0][0]:
        return points[0][1]
    if x >= points[-1][0]:
        return points[-1][1]
    i = bisect.bisect_right([p[0] for p in points], x)
    (a, b), (c, d) = points[i - 1], points[i]
    f = (x - a) / (c - a)
    return f * d + (1 - f) * b


class Gen(object):
    def __init__(self, lab, r, els=None, h="X"):
        self.lab, self.R, self.D, self.r, self.h = lab, lab.R, lab.D, r, h
        self.els = els or lab.R.order[3:92]
        self.n = 0
        self.registered = []
        for i in range(6):
            name = "Alloy%d" % i
            comp = matgen.composition(r, self.els, 3)
            self.D.call("E.addMaterialS", lab.h, name, 2.0, .1, "", 1)
            self.D.call("E.setCompM", lab.h, name, comp)
            self.R.materials[name] = {"comp": comp}
            self.registered.append(name)

    def layer(self, kind="sample", nmax=3, lo=-5, hi=-1):
        r = self.r
        self.n += 1
        l = {"density": r.uniform(.5, 12), "thickness": 10 ** r.uniform(lo, hi), "funny": 1.0}
        m = r.random()
        if m < .5:
            l["own"] = True
            l["mat"] = "m%d" % self.n
            l["how"] = {k: r.uniform(.05, 1) for k in subset(r, self.els, 1, nmax)}
            if r.random() < .15:
                l["how"][r.choice(self.els)] = 1e-4
            l["comp"] = ref.normalise(self.R.comp_with(ref.normalise(l["how"]), []))
        else:
            l["own"] = False
            l["mat"] = r.choice(self.els) if m < .7 else r.choice(matgen.COMMON) if m < .85 else r.choice(self.registered)
            l["comp"] = self.R.comp(l["mat"])
        if kind != "sample" and r.random() < .25:
            l["funny"] = r.choice([0.5, r.random()])
        return l

    def table(self):
        r = self.r
        n = r.randint(1, 5)
        es = sorted(set(round(r.uniform(.5, 60), 3) for _ in range(n)))
        return [(e, r.choice([r.random(), r.uniform(.2, 1), 1.0])) for e in es]

    def config(self, nlayers=3, nmax=3, nray=3, emin=4.0, emax=60.0, detector=True, extras=True, thin=-5, thick=-1, big=0):
        """Energies are kept off the immediate vicinity of the edges."""
        r, R = self.r, self.R
        few = 2
        if r.random() < big:
            # many of one kind of thing
            m = r.randrange(3)
            if m == 0:
                nlayers, thick = 6 * nlayers, min(thick, -3)
            elif m == 1:
                nray = 25 * nray
            else:
                few, extras = 12, True
        S = [self.layer("sample", nmax, thin, thick) for _ in range(r.choice(list(range(1, nlayers + 1))))]
        if len(S) > 1 and r.random() < .2:
            S[-1] = dict(S[0], thickness=S[-1]["thickness"])
        cfg = {"sample": S, "ref": r.randrange(len(S)) if r.random() < .3 else 0}
        cfg["alphaIn"], cfg["alphaOut"] = r.choice([(45.0, 45.0), (90.0, 90.0), (r.uniform(5, 90), r.uniform(5, 90)), (r.uniform(5, 90), r.uniform(90, 170)), (r.uniform(1, 10), r.uniform(30, 90)), (r.uniform(90, 175), r.uniform(5, 90))])
        cfg["scat"] = r.choice([-1.0, 90.0])
        pick = lambda p, f, n: [f() for _ in range(r.randint(1, n))] if extras and r.random() < p else []
        cfg["filters"] = pick(.4, lambda: self.layer("filter", 2, -5, -2 if few < 3 else -4), few)
        cfg["ufilters"] = pick(.3, self.table, few)
        cfg["attenuators"] = pick(.4, lambda: self.layer("attenuator", 2, -5, -2 if few < 3 else -4), few)
        cfg["uattenuators"] = pick(.3, self.table, few)
        det = {"diameter": 0.0, "distance": 10.0, "ith": 1e-7}
        if detector and r.random() < .7:
            d = self.layer("sample", 2, -3, 0)
            if r.random() < .6:
                d.update(own=False, mat=r.choice(["Si", "Ge"]))
                d["comp"] = {d["mat"]: 1.0}
            if r.random() < .2 and not d["own"]:
                d["density"], d["thickness"] = r.choice([(0.0, 1.0), (1.0, 0.0)])
            det.update(d)
            det["ith"] = r.choice([1e-7, 1e-7, 1e-4, 0.0])
        if r.random() < .7:
            det["diameter"], det["distance"] = r.choice([r.uniform(.05, 3), 1.0]), r.choice([r.uniform(.05, 20), 2.0])
        cfg["detector"] = det
        used = set()
        for l in S + cfg["filters"]:
            used |= set(l["comp"])
        raws = []
        # the whole beam in the window between two neighbouring edges of an element
        wins = []
        for s in sorted(used):
            bs = sorted((b, k) for k, b in R.el[s].binding.items() if k[0] in "LM" and b > 0)
            wins += [(a, b, s, k[0]) for (a, k), (b, q) in zip(bs, bs[1:]) if k[0] == q[0] and b < emax and a > emin * .7 and b - a > .02]
        win = r.choice(wins) if wins and r.random() < .2 else None
        if win:
            cfg["focus"] = win[2:]
        for _ in range(1 if win and r.random() < .6 else r.randint(1, nray)):
            for _ in range(50):
                m = r.random()
                if win:
                    x = r.uniform(win[0] + .002, win[1] - .002)
                elif m < .5:
                    e = R.el[r.choice(sorted(used))]
                    bs = [b for b in e.binding.values() if emin < b < emax / 1.3]
                    x = r.choice(bs) * r.choice([1.0001, 1.05, 1.3, .99]) if bs else r.uniform(emin, emax)
                else:
                    x = r.uniform(emin, emax)
                if all(away(R.el[s], x) == x and x not in R.el[s].binding.values() for s in used) and all(abs(x - y) > 1e-6 for y, w in raws):
                    break
            raws.append((x, r.choice([1.0, r.uniform(.01, 1), r.uniform(1, 1000)])))
        cfg["rawbeam"] = raws
        t = sum(w for x, w in raws)
        cfg["beam"] = sorted((x, w / t) for x, w in raws)
        return cfg

    # -- towards the library
    def layer_cmds(self, l, cmds):
        """Commands that make the material of a layer; returns the layer spec."""
        if l["own"]:
            cmds.append(["mat.new", l["mat"], l["mat"], 1.0, 1.0, ""])
            cmds.append(["mat.compM", l["mat"], l["how"]])
            return [l["mat"], l["density"], l["thickness"], l["funny"], l["mat"]]
        return [l["mat"], l["density"], l["thickness"], l["funny"]]

    def commands(self, cfg, h=None):
        h = h or self.h
        out = []
        tabs = {}

        def tables(ts, p):
            names = []
            for i, t in enumerate(ts):
                n = "%s%d" % (p, i)
                out.append(["tt.new", n])
                out.append(["tt.setVec", n, [x for x, y in t], [y for x, y in t], "", ""])
                names.append(n)
            return names
        out.append(["X.new", h])
        s = [self.layer_cmds(l, out) for l in cfg["sample"]]
        out.append(["X.sample", h, s, cfg.get("ref", 0)])
        out.append(["X.filters", h, [self.layer_cmds(l, out) for l in cfg.get("filters", [])]])
        out.append(["X.attenuators", h, [self.layer_cmds(l, out) for l in cfg.get("attenuators", [])]])
        out.append(["X.ufilters", h, tables(cfg.get("ufilters", []), "uf")])
        out.append(["X.uattenuators", h, tables(cfg.get("uattenuators", []), "ua")])
        d = cfg["detector"]
        if d.get("comp"):
            spec = self.layer_cmds(d, out)
            out.append(["det.new", "det"] + spec[:4])
            if d["own"]:
                out.append(["det.matM", "det", d["mat"]])
        else:
            out.append(["det.new", "det", "", 0.0, 0.0, 1.0])
        out.append(["det.diameter", "det", d["diameter"]])
        out.append(["det.distance", "det", d["distance"]])
        out.append(["det.minI", "det", d["ith"]])
        out.append(["X.detector", h, "det"])
        out.append(["X.geometry", h, cfg["alphaIn"], cfg["alphaOut"], cfg.get("scat", 90.0)])
        out.append(["X.beam", h, [x for x, w in cfg["rawbeam"]], [w for x, w in cfg["rawbeam"]], [1], [0.0]])
        return out

    def forms(self, cfg, cmds):
        """The same setup through the other operations that make it."""
        out = []
        k = int(repr(cfg["rawbeam"][0][0])[-1], 36) + int(repr(cfg["alphaIn"])[-1], 36)
        for q in cmds:
            if q[0] == "X.sample" and len(q[2]) == 1 and q[3] == 0 and k % 3:
                l = q[2][0]
                if len(l) == 4 and l[3] == 1.0 and k % 3 == 1:
                    q = ["X.sampleS", q[1], l[0], l[1], l[2]]
                else:
                    out.append(["layer.new", "alone"] + l[:4])
                    if len(l) > 4:
                        out.append(["layer.matM", "alone", l[4]])
                    q = ["X.sampleL", q[1], "alone"]
            elif q[0] == "X.beam" and len(q[2]) == 1 and k % 4 < 2:
                q = ["X.single", q[1], q[2][0], 0.0]
            elif q[0] == "X.beam" and k % 4 == 2:
                out += [["beam.new", "alone"], ["beam.set", "alone"] + q[2:]]
                q = ["X.beamB", q[1], "alone"]
            elif q[0] == "det.diameter" and k % 2:
                q = ["det.area", q[1], math.pi * q[2] ** 2 / 4]
            elif q[0] in ("X.filters", "X.attenuators", "X.ufilters", "X.uattenuators") and not q[2] and k % 5:
                # nothing set is the same as an empty list
                continue
            out.append(q)
        # the settings are independent: any order, as long as objects exist
        last = [q for q in out if q[0].startswith("X.") and q[0] != "X.new"]
        first = [q for q in out if not (q[0].startswith("X.") and q[0] != "X.new")]
        n = k % len(last) if last else 0
        return first + last[n:] + last[:n]

    def apply(self, cfg, h=None):
        for q, g in zip(*(lambda cs: (cs, self.D.batch(cs)))(self.forms(cfg, self.commands(cfg, h)))):
            if isinstance(g, LibError):
                self.lab.c.fail("setup", "%s refused: %s" % (q, g))

    def requests(self, cfg, n=4, absent=.15):
        """[(element, family, layer)] without overlaps."""
        r = self.r
        els = sorted({e for l in cfg["sample"] for e in l["comp"]})
        emax = max(x for x, w in cfg["beam"])
        out = []
        if cfg.get("focus") and r.random() < .7:
            out.append(cfg["focus"] + (-1,))
            n -= 1
        for _ in range(n):
            el = r.choice(self.els) if r.random() < absent else r.choice(els)
            b = self.R.el[el].binding
            fams = [f for f in ["K", "L", "M", "Ka", "Kb", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"] if b.get(f if f[0] != "K" else "K", b.get(f + "1", 0)) or r.random() < .1]
            fams = fams or ["K"]
            good = [f for f in fams if 0 < refxrf.threshold(self.R, el, f[0]) < emax] or fams
            f = r.choice(good if r.random() < .85 else fams)
            if any(e == el and g == f for e, g, k in out):
                continue
            out.append((el, f, -1))
        m = r.random()
        if m < .35:
            k = r.randrange(len(cfg["sample"]))
            out = [(e, f, k) for e, f, _ in out]
        elif m < .6:
            out = [(e, f, r.choice([-1, r.randrange(len(cfg["sample"]))])) for e, f, _ in out]
        return out

    def fluo(self, req, secondary=0, geo=1, mass=1, limit=0.0, beam=None, h=None):
        """The command for a request; one layer for all where possible."""
        ls = [k for e, f, k in req]
        if len(set(ls)) == 1 and self.r.random() < .5:
            ls = ls[:1]
        return ["X.fluo", h or self.h, self.lab.h, [e for e, f, k in req], ls, [f for e, f, k in req], secondary, geo, mass, limit, beam]


FIELDS = ("energy", "energy_threshold", "efficiency", "mu_1_i", "primary", "massFraction", "ratio")


def clean(g):
    """Drop the empty entries that the tertiary correction leaves behind."""
    if isinstance(g, LibError):
        return g
    out = {}
    for k, layers in g.items():
        for i, lines in layers.items():
            if lines:
                out.setdefault(k, {})[int(i)] = lines
    return out


KNOWN_FIELDS = set(FIELDS) | {"rate", "secondary", "tertiary"}


def compare(c, key, cmd, g, w, near, fields=FIELDS, rel=3e-9, secrel=1e-6, totals=True, contributions=False):
    """Compare an answer with the reference answer.  Returns compared lines."""
    import runner
    if isinstance(g, LibError):
        c.fail(key + ":raised", "%s raised %s" % (cmd, g))
        return 0
    g = clean(g)
    n = 0
    for k in sorted(set(g) | set(w)):
        for i in sorted(set(g.get(k, {})) | set(w.get(k, {}))):
            a, b = g.get(k, {}).get(i, {}), w.get(k, {}).get(i, {})
            for line in sorted(set(a) | set(b)):
                if line.split(" ")[-1] in near:
                    continue
                x, y = a.get(line), b.get(line)
                where = "%s: '%s' layer %d line '%s'" % (cmd if len(cmd) < 200 else cmd[:200] + "...", k, i, line)
                if x is None or y is None:
                    c.fail(key + ":" + ("missing" if x is None else "extra"), "%s is %s" % (where, "missing, expected %s" % brief(y) if x is None else "not expected: %s" % brief(x)))
                    continue
                n += 1
                par = b.get(y.get("_parent"), {}) if "_parent" in y else {}
                # an escape ratio is a difference of close numbers for lines of very low energy
                # a transmission loses relative precision as its exponent grows
                gr = lambda v: max(1.0, -math.log(abs(v)) / 10) if 0 < abs(v) < 1 else 1.0
                rl = lambda v: 3 * rel * gr(v)
                ab = lambda f: 1e-290 + (0.0 if not par else (4e-15 + y.get("_abs", 0.0)) * (1.0 if f == "ratio" else abs(par.get(f, 0.0))))
                for f in fields:
                    if f in y and not (f in x and runner.close(x[f], y[f], rl(y[f]), ab(f))):
                        c.fail(key + ":" + f, "%s: %s is %r, expected %r" % (where, f, x.get(f), y[f]))
                tol = y["_tol"] if "_tol" in y else 0.0
                if "secondary" in y and not (abs(x["secondary"] - y["secondary"]) <= secrel * tol * gr(tol) + 1e-12 * abs(y.get("primary", 0.0)) + 1e-85 + ab('secondary')):
                    c.fail(key + ":secondary", "%s: secondary is %r, expected %r (scale %r)" % (where, x["secondary"], y["secondary"], tol))
                if totals and not near:
                    for f in ("rate", "tertiary"):
                        if f not in y:
                            continue
                        if f == "tertiary" and abs(y.get("_f", 1) - 1.01) < 1e-5:
                            continue
                        if not (f in x and runner.close(x[f], y[f], 1e-5 if tol else rl(y[f]), secrel * tol * gr(tol) + (1e-85 if tol else 0.0) + ab(f))):
                            c.fail(key + ":" + f, "%s: %s is %r, expected %r" % (where, f, x.get(f), y[f]))
                if contributions and "_c" in y:
                    for s in set(y["_c"]) | (set(x) - KNOWN_FIELDS):
                        v, sc = y["_c"].get(s, (0.0, 0.0))
                        if not abs(x.get(s, 0.0) - v) <= secrel * sc * gr(sc) + 1e-12 * abs(y.get("primary", 0.0)) + 1e-85:
                            c.fail(key + ":contribution", "%s: contribution of '%s' is %r, expected %r (scale %r)" % (where, s, x.get(s), v, sc))
                        c.count("contributions")
    return n


def brief(d):
    return {k: v for k, v in d.items() if k in KNOWN_FIELDS}


def slim(cfg):
    """A description of a setup for messages and samples."""
    f = lambda l: {k: l[k] for k in ("mat", "density", "thickness", "funny", "how") if k in l}
    out = dict(cfg)
    for k in ("sample", "filters", "attenuators"):
        out[k] = [f(l) for l in cfg.get(k, [])]
    out["detector"] = {k: v for k, v in cfg["detector"].items() if k != "comp"}
    return out
