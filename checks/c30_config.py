"""C30: a configuration file produces the setup it describes."""
import sys, os, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import xrfgen
RULE = ("random setups written as configuration files (single and multilayer samples, materials, tables, disabled entries, comments, letter case, order of the sections) "
        "and read by setups with another history: the configuration read back and the answers are compared with those of a setup made through the interface; "
        "a case is one compared configuration or answer")


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def flist(r, xs):
    sep = r.choice([", ", ",", " , "])
    t = sep.join("%r" % x for x in xs)
    if len(xs) > 2 and r.random() < .2:
        k = t.index(",", t.index(",") if r.random() < .5 else t.rindex(",") - 1) + 1
        t = t[:k] + "\n   " + t[k:]
    return t


def setup(r, G):
    """A setup that a file can describe and what is needed to write it."""
    cfg = G.config(nlayers=4, nmax=3, nray=4, thick=-1, thin=-4, big=0.06)
    cfg["ref"] = 0
    det = cfg["detector"]
    det.pop("diameter", None)
    for f in cfg["sample"]:
        f["funny"] = 1.0
    cfg["sample"] = cfg["sample"][:10]
    cfg["filters"] = cfg["filters"][:r.choice([10, 2, 1])]
    cfg["useScat"] = r.random() < .5
    cfg["scatFile"] = r.choice([90.0, r.uniform(10, 170)])
    cfg["scat"] = cfg["scatFile"] if cfg["useScat"] else cfg["alphaIn"] + cfg["alphaOut"]
    cfg["area"] = r.choice([None, r.uniform(.01, 2), 0.5, 0.0])
    cfg["distance"] = r.choice([None, r.uniform(.5, 20), 1.0])
    cfg["single"] = len(cfg["sample"]) == 1 and r.random() < .7
    cfg["char"] = [r.choice([1, 1, 0]) for _ in cfg["rawbeam"]]
    # a material of a layer may also bring the density or the thickness
    cfg["mats"] = {}
    for l in cfg["sample"] + cfg["filters"] + cfg["attenuators"] + ([det] if det.get("comp") else []):
        if l["own"]:
            l["mat"] = r.choice(["Mat", "mat ", "my material ", "X-"]) + l["mat"]
            cfg["mats"][l["mat"]] = {"how": l["how"], "density": r.choice([1.0, r.uniform(.5, 10)]), "thickness": r.choice([1.0, 10 ** r.uniform(-4, -1)]), "comment": r.choice(["", "a comment", "text with, commas"])}
    # another material gets the name of an element: its composition is used instead
    if r.random() < .15:
        names = [l for l in cfg["sample"] + cfg["attenuators"] if not l["own"] and l["mat"] in G.els]
        if names:
            l = r.choice(names)
            cfg["mats"][l["mat"]] = {"how": {k: 1.0 for k in subset(r, G.els, 1, 2)}, "density": 2.0, "thickness": .01, "comment": ""}
            for q in cfg["sample"] + cfg["filters"] + cfg["attenuators"] + ([det] if det.get("comp") else []):
                if q["mat"] == l["mat"]:
                    q["own"], q["how"] = True, cfg["mats"][l["mat"]]["how"]
    cfg["keys"] = {"filters": ["BeamFilter%d" % i for i in sorted(r.sample(range(max(len(cfg["filters"]), r.choice([10, 10, 40]))), len(cfg["filters"])))],
                   "attenuators": r.sample(["atmosphere", "deadlayer", "window", "absorber", "contact", "Filter 6", "Foil1", "Zeta", "beamfilter0", "air", "Filter10", "Filter2", "kapton", "mylar", "BeamFilte", "Deadlayer"], len(cfg["attenuators"])),
                   "sample": ["Matrix"] if cfg["single"] else ["Layer%d" % i for i in sorted(r.sample(range(max(len(cfg["sample"]), r.choice([10, 10, 30, 120]))), len(cfg["sample"])))],
                   "detector": r.choice(["Detector", "Detector", "Detector1"])}
    return cfg


def anycase(r, items):
    """The items with their keys in any case."""
    m = r.choice(["as is", "as is", "upper", "lower", "mixed"])
    out = []
    for it in items:
        k, eq, v = it.partition("=")
        k = {"as is": k, "upper": k.upper(), "lower": k.lower(), "mixed": "".join(r.choice([x.upper(), x.lower()]) for x in k)}[m]
        out.append(k + eq + v)
    return out


def ini(r, cfg):
    secs = {}
    # the beam, with disabled energies in between
    rows = [(x, w, ch, 1) for (x, w), ch in zip(cfg["rawbeam"], cfg["char"])]
    for _ in range(r.choice([0, 0, 1, 3])):
        rows.insert(r.randint(0, len(rows)), (r.uniform(1, 90), r.uniform(.1, 9), r.choice([0, 1]), r.choice([0, 0, -1])))
    if r.random() < .2:
        rows.append(("None", 1.0, 1, r.choice([0, 1])))
    s = []
    head = r.choice(["fit", "fit", "Fit", "FIT"])
    e = [x for x, w, ch, f in rows]
    s.append("energy = " + (flist(r, e) if "None" not in e else ", ".join("%r" % x if x != "None" else "None" for x in e)))
    s.append("energyweight = " + flist(r, [w for x, w, ch, f in rows]))
    if any(ch != 1 for x, w, ch, f in rows) or r.random() < .5:
        s.append("energyscatter = " + flist(r, [ch for x, w, ch, f in rows]))
    if any(f != 1 for x, w, ch, f in rows) or r.random() < .5:
        s.append("energyflag = " + flist(r, [f for x, w, ch, f in rows]))
    if all(w == rows[0][1] for x, w, ch, f in rows) and r.random() < .7:
        s.pop(1)
    s += r.sample(["linearfitflag = 0", "xmin = 20", "fitfunction = 0 # comment", "strategy = SingleLayerStrategy", "use_limit = 1"], r.randint(0, 4))
    secs[head] = s
    off = lambda key: "%s = 0, %s, %r, %r, %r" % (key, r.choice(["-", "Cu", "Gold"]), r.choice([0.0, 8.9]), r.choice([0.0, .01]), 1.0)
    one = lambda key, l, n=5: ("%s = 1, %s, %r, %r" % (key, l["mat"], l["density"], l["thickness"])) + (", %r" % l["funny"] if n == 5 else "")
    s = [one(k, l) for k, l in zip(cfg["keys"]["filters"], cfg["filters"])] + [one(k, l) for k, l in zip(cfg["keys"]["attenuators"], cfg["attenuators"])]
    for k in ["BeamFilter%d" % i for i in range(3)] + ["atmosphere", "window", "Other"]:
        if k not in cfg["keys"]["filters"] + cfg["keys"]["attenuators"] and r.random() < .4:
            s.append(off(k))
    det = cfg["detector"]
    if det.get("comp"):
        s.append(one(cfg["keys"]["detector"], dict(det, funny=det.get("funny", 1.0))))
    elif r.random() < .6:
        s.append(off("Detector"))
    first = cfg["sample"][0] if cfg["single"] else {"mat": "MULTILAYER", "density": 0.0, "thickness": 0.0}
    s.append("Matrix = 1, %s, %r, %r, %r, %r, %d, %r" % (first["mat"], first["density"], first["thickness"], cfg["alphaIn"], cfg["alphaOut"], int(cfg["useScat"]), cfg["scatFile"]))
    r.shuffle(s)
    secs[r.choice(["attenuators", "attenuators", "Attenuators"])] = s
    if not cfg["single"] or r.random() < .3:
        s = [one(k, l, r.choice([4, 5])) for k, l in zip(cfg["keys"]["sample"], cfg["sample"])] if not cfg["single"] else ["Layer0 = 1, Cu, 8.9, 0.1"]
        for k in ["Layer%d" % i for i in range(r.choice([10, 10, 13]))]:
            if k not in cfg["keys"]["sample"] and r.random() < .3 and not cfg["single"]:
                s.append("%s = 0, %s, 0.0, 0.0" % (k, r.choice(["-", "Fe"])))
        r.shuffle(s)
        secs["multilayer"] = s
    for name, m in cfg["mats"].items():
        ks = list(m["how"])
        s = ["Density = %r" % m["density"], "Thickness = %r" % m["thickness"], "CompoundList = " + ", ".join(ks),
             r.choice(["CompoundFraction", "CompoundFractions", "compoundfraction"]) + " = " + flist(r, [m["how"][k] for k in ks])]
        if m["density"] == 1.0 and r.random() < .5:
            s.pop(0)
        if m["comment"]:
            s.append("Comment = " + m["comment"])
        r.shuffle(s)
        secs[r.choice(["Materials.", "Materials.", "materials."]) + name] = anycase(r, s)
    for p, key in (("UserBeamFilters", "ufilters"), ("UserAttenuators", "uattenuators")):
        ts = [("T%d" % i, t, 1) for i, t in enumerate(cfg[key])]
        if r.random() < .3:
            ts.append(("Off", [(1.0, .1), (50.0, .2)], 0))
        for name, t, use in ts:
            s = ["use = %d" % use, "energy = " + flist(r, [x for x, y in t]), "transmission = " + flist(r, [y for x, y in t]), "comment = user table"]
            if not use and r.random() < .5:
                s.pop(0)
            r.shuffle(s)
            secs[p + "." + name] = anycase(r, s)
    s = []
    if cfg["area"] is not None:
        s.append("%s = %r" % (r.choice(["area", "Area"]), cfg["area"]))
    if cfg["distance"] is not None:
        s.append("%s = %r" % (r.choice(["distance", "Distance"]), cfg["distance"]))
    s += ["flux = 1e10", "time = 1.0", "usematrix = 0"][:r.randint(0, 3)]
    if s or r.random() < .5:
        secs["concentrations"] = anycase(r, s)
    # sections of tables and materials keep their order, the others come in any
    order = list(secs)
    fixed = [k for k in order if "." in k]
    other = [k for k in order if "." not in k] + ["peaks"]
    secs["peaks"] = ["Fe = K", "Pb = L, M"]
    r.shuffle(other)
    for k in fixed:
        other.insert(r.randint(0, len(other)), None)
    it = iter(fixed)
    order = [k if k is not None else next(it) for k in other]
    eol = r.choice(["\n", "\n", "\r\n"])
    lines = []
    for k in order:
        lines.append("[%s]" % k)
        lines += "\n".join(secs[k]).split("\n")
        lines += [""] * r.choice([0, 1, 1])
    return eol.join(lines) + eol


def twin(G, cfg, h):
    """Commands that make the same setup through the interface, filters in the order of the file's keys."""
    d = dict(cfg)
    by = lambda key: [l for k, l in sorted(zip([k.replace(" ", "") for k in cfg["keys"][key]], cfg[key]), key=lambda x: (len(x[0]) if key == "sample" else 0, x[0]))]
    for key in ("filters", "attenuators", "sample"):
        d[key] = by(key) if not (key == "sample" and cfg["single"]) else cfg["sample"]
    det = dict(cfg["detector"])
    d["detector"] = dict(det, diameter=0.0, distance=cfg["distance"] if cfg["distance"] is not None else 10.0)
    out = []
    for q in G.commands(d, h):
        if q[0] == "det.diameter":
            if cfg["area"] is not None:
                out.append(["det.area", "det", cfg["area"]])
        elif q[0] == "det.minI":
            pass
        elif q[0] == "X.beam":
            out.append(["X.beam", h, q[2], q[3], cfg["char"], []])
        else:
            out.append(q)
            if q[0] == "mat.compM" and q[1] in cfg["mats"]:
                m = cfg["mats"][q[1]]
                out[-2:] = [["mat.new", q[1], q[1], m["density"], m["thickness"], m["comment"]], ["mat.compM", q[1], m["how"]]]
    return out


def expected(cfg, t):
    """The configuration of the twin with what only files define."""
    w = dict(t)
    for key in ("filters", "attenuators", "sample"):
        names = sorted([k.replace(" ", "") for k in cfg["keys"][key]], key=lambda k: (len(k) if key == "sample" else 0, k))
        w[key] = [dict(l, name=n, materialName=l["materialName"] or l["name"]) for l, n in zip(t[key], names)]
    return w


def strip(cfg):
    """What is compared of a configuration."""
    out = {k: cfg[k] for k in ("alphaIn", "alphaOut", "scatteringAngle", "referenceLayer", "beam")}
    lay = lambda l: [l["density"], l["thickness"], l["funny"], l["has"], l["comp"]]
    for k in ("sample", "filters", "attenuators"):
        out[k] = [(l["name"],) + tuple(lay(l)) for l in cfg[k]]
    d = cfg["detector"]
    out["detector"] = [lay(d["layer"]), d["diameter"], d["distance"], d["eth"], d["ith"], d["nth"], d["alpha"]]
    for k in ("ufilters", "uattenuators"):
        out[k] = [t[2] for t in cfg[k]]
    return out


def split(g):
    """The rates without and with enhancement, which loses precision when sources cancel."""
    a, b = {}, {}
    for k, layers in g.items():
        for i, lines in layers.items():
            for l, d in lines.items():
                a.setdefault(k, {}).setdefault(i, {})[l] = {f: v for f, v in d.items() if f in xrfgen.FIELDS}
                b.setdefault(k, {}).setdefault(i, {})[l] = {f: v for f, v in d.items() if f in ("rate", "tertiary")}
    return a, b


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    lab = Lab(c, ["default", "pymca", "default", "custom"][w % 4], driver=D)
    G = xrfgen.Gen(lab, r)
    t0 = time.time()
    run = 0
    have = set()
    while run < c.size(250, 100000) and time.time() - t0 < c.size(13, 400):
        run += 1
        cfg = setup(r, G)
        text = ini(r, cfg)
        p = c.write("w%d-%d.cfg" % (w, run % 6), text)
        c.context = {"file": text[:4000]}
        h = "x%d" % r.randrange(3)
        if h in have and r.random() < .7:
            if r.random() < .3:
                # something else was set in between
                D.batch([["X.geometry", h, 10.0, 20.0, 90.0], ["X.ufilters", h, []], ["X.sample", h, [["Fe", 1.0, 1.0, 1.0], ["Fe", 1.0, 1.0, 1.0]], 1]])
            if r.random() < .3:
                refused(c, r, D, h, text)
            cmd = ["X.read", h, p]
        else:
            cmd = ["X.new", h, p]
        have.add(h)
        g = D.attempt(*cmd)
        if isinstance(g, LibError):
            c.fail("refused", "%s: %s" % (cmd, g))
            continue
        for q, a in zip(*(lambda cs: (cs, D.batch(cs)))(twin(G, cfg, "t"))):
            if isinstance(a, LibError):
                c.fail("twin", "%s refused: %s" % (q, a))
        a, b = D.call("X.config", h), D.call("X.config", "t")
        c.same(strip(a), strip(expected(cfg, b)), "configuration", "configuration ", 1e-12)
        mats = {m["name"]: m for m in a["materials"]}
        c.same(sorted(mats), sorted(cfg["mats"]), "materials", "names of the materials ")
        for k, m in cfg["mats"].items():
            if k in mats:
                t = sum(m["how"].values())
                c.same([mats[k]["density"], mats[k]["thickness"], mats[k]["comp"], mats[k]["comment"].strip()],
                       [m["density"], m["thickness"], {e: v / t for e, v in m["how"].items()}, m["comment"]], "materials", "material %s " % k, 1e-12)
        for key in ("ufilters", "uattenuators"):
            c.same([t[0] for t in a[key]], ["T%d" % i for i in range(len(cfg[key]))], key, "names of the tables ")
            c.same([t[1].strip() for t in a[key]], ["user table"] * len(cfg[key]), key, "comments of the tables ")
        c.case((w, run, "config"), "configurations")
        req = G.requests(cfg, r.randint(1, 4), .1)
        sec, geo, mass = r.choice([0, 0, 0, 1]), r.choice([1, 1, 0]), r.choice([1, 1, 0])
        cmd = G.fluo(req, sec, geo, mass, 0.0)
        qs = [cmd, ["X.geff", h, r.randrange(len(cfg["sample"]))]]
        if r.random() < .3:
            D.call("X.copy", "cp", h)
            qs[0] = cmd = [cmd[0], "cp"] + cmd[2:]
        else:
            cmd[1] = h
        got = D.batch(qs)
        want = D.batch([[q[0], "t"] + q[2:] for q in qs])
        for q, x, y in zip(qs, got, want):
            if isinstance(x, LibError) and isinstance(y, LibError):
                continue
            if q[0] == "X.fluo" and isinstance(x, dict) and isinstance(y, dict):
                x, y = split(x), split(y)
                c.same(x[1], y[1], "answers", "%s: " % _j(q), 1e-5, 1e-85)
                x, y = x[0], y[0]
            c.same(x, y, "answers", "%s: " % _j(q), 1e-9, 1e-290)
            c.case((w, run, q[0]), "answers")
        c.count("lines", sum(len(l) for x in (got[0].values() if isinstance(got[0], dict) else []) for l in x.values()))
        c.sample({"file": text[:600]})


def refused(c, r, D, h, text):
    """An unusable file is refused and leaves the setup as it was."""
    before = D.call("X.config", h)
    m = r.randrange(5)
    if m == 0:
        p = os.path.join(c.scratch(), "missing.cfg")
    else:
        bad = {1: "[peaks]\nFe = K\n", 2: text + "\n[fit\n", 3: text.replace("Matrix = 1", "Aaa = 1, Fe, 1.0\nMatrix = 1"),
               4: re.sub(r"(?i)(\[fit\]\r?\nenergy = )", r"\1 5.0, 6.0, 7.0, 8.0, 9.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0,", text)}[m]
        if m == 4 and "energyweight" not in text and "energyscatter" not in text:
            return
        p = c.write("bad.cfg", bad)
    g = D.attempt("X.read", h, p)
    c.expect(isinstance(g, LibError), "accepted", "unusable file (kind %d) is accepted" % m)
    c.same(D.call("X.config", h), before, "refused-state", "configuration after a refused file (kind %d) " % m, 0.0)
    c.case(("refused", m), "refused_files")


if __name__ == "__main__":
    Check("C30", RULE).run(main)
