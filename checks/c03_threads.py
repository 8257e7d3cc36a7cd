"""C03: concurrent queries on shared objects, under ThreadSanitizer and compared with the answers of one thread."""
import json, os, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen, shellgen, xrfgen
RULE = ("one run of several threads asking shared objects (library, element, shell, layer, detector, setup) at the same time, each also changing and asking objects of its own; "
        "distinct by the observed order of calls of different threads")
SH = ["K", "L1", "L2", "L3", "M1", "M3", "M5"]


def shared(c, r, lab, h):
    """Queries documented as not modifying what they are asked of."""
    R = lab.R
    el = lambda: r.choice(R.order[3:92])
    x = lambda: energy(r, R.el[el()], .5, 150)
    vac = lambda: {s: r.uniform(.1, 1) for s in subset(r, SH, 1, 4)}
    comp = lambda: matgen.composition(r, R.order[3:92])
    mat = lambda: r.choice([el(), "SiO2", "CaSO4(H2O)2", "Alloy1", "Alloy2"])
    es = lambda: sorted(x() for _ in range(r.randint(1, 4)))
    Q = [lambda: ["E.info", h, el()], lambda: ["E.emitted", h, el(), x()], lambda: ["E.non", h, el(), r.choice(SH)], lambda: ["E.rad", h, el(), r.choice(SH)], lambda: ["E.vac", h, el(), x()],
         lambda: ["E.vacv", h, el(), es()], lambda: ["E.cascade", h, el(), vac()], lambda: ["E.fromvac", h, el(), vac(), r.choice([0, 1]), 1], lambda: ["E.const", h, el(), r.choice(SH)],
         lambda: ["E.getConstFile", h, "L"], lambda: ["E.getRadFile", h, "K"], lambda: ["E.getNonFile", h, "M"], lambda: ["E.muall", h, el()], lambda: ["E.muv", h, mat(), es()], lambda: ["E.mu", h, mat(), x()],
         lambda: ["E.mumv", h, comp(), es(), 0], lambda: ["E.mum", h, comp(), x(), 0], lambda: ["E.create", h, "new", 1.0, .1, "c"], lambda: ["E.formulaComp", h, mat()], lambda: ["E.comp", h, mat()],
         lambda: ["E.compM", h, mat(), ["m"]], lambda: ["E.parse", h, "Fe2(SO4)3"], lambda: ["E.excv", h, el(), [x(), x()], [1.0, 2.0]], lambda: ["E.exc", h, el(), x(), 1.0], lambda: ["E.families", h, mat(), x()],
         lambda: ["E.familiesV", h, [el(), el()], x()], lambda: ["E.bind", h, el()], lambda: ["E.escape", h, {el(): 1.0}, x(), .01, 1e-7, 4, 90.0, 0.0], lambda: ["E.cSize", h, el()],
         lambda: ["el.info", "el"], lambda: ["el.mu", "el", x()], lambda: ["el.muv", "el", es()], lambda: ["el.partial", "el", x()], lambda: ["el.vac", "el", x()], lambda: ["el.vacv", "el", es()], lambda: ["el.cascade", "el", vac()],
         lambda: ["el.fromvac", "el", vac(), 1, 1], lambda: ["el.lines", "el", r.choice(["K", "L", "L3", "M", ""])], lambda: ["el.emitted", "el", x()], lambda: ["el.exc", "el", x(), 1.0], lambda: ["el.excited", "el", x()],
         lambda: ["el.rad", "el", r.choice(SH)], lambda: ["el.non", "el", r.choice(SH)], lambda: ["el.const", "el", r.choice(SH)], lambda: ["el.fluo", "el", r.choice(SH)], lambda: ["el.tenergy", "el", "KL3"], lambda: ["el.muall", "el"],
         lambda: ["shell.fluo", "sh"], lambda: ["shell.auger", "sh"], lambda: ["shell.ck", "sh"], lambda: ["shell.yield", "sh"], lambda: ["shell.rad", "sh"], lambda: ["shell.non", "sh"], lambda: ["shell.getConst", "sh"],
         lambda: ["shell.transfer", "sh", r.choice(["L2", "L3", "M1", "M5"])], lambda: ["layer.get", "layer"], lambda: ["layer.comp", "layer", h], lambda: ["layer.trans", "layer", x(), h, 45.0], lambda: ["layer.transv", "layer", es(), h, 90.0],
         lambda: ["layer.mu", "layer", x(), h], lambda: ["layer.muv", "layer", es(), h], lambda: ["layer.families", "layer", x(), h], lambda: ["det.get", "det"], lambda: ["det.trans", "det", x(), h, 90.0], lambda: ["det.comp", "det", h],
         lambda: ["beam.get", "beam"], lambda: ["beam.print", "beam"], lambda: ["tt.get", "tt"], lambda: ["tt.at", "tt", x()], lambda: ["tt.atv", "tt", es()], lambda: ["math.deBoerL0", r.uniform(.1, 50), r.uniform(.1, 50), r.uniform(.1, 9), r.uniform(.1, 5), r.uniform(.001, .1)],
         lambda: ["math.E1", x()], lambda: ["math.En", 3, x()], lambda: ["math.erf", r.random()], lambda: ["math.deBoerX", *[r.uniform(.1, 3) for _ in range(7)]], lambda: ["epdl.mu", "ep", r.randint(1, 99), x()], lambda: ["epdl.muv", "ep", r.randint(1, 99), es()],
         lambda: ["E.s2d", "12.5"], lambda: ["E.d2s", r.uniform(0, 9)], lambda: ["version"], lambda: ["ini.vd", "1, 2.5, x", -1.0, ","], lambda: ["ini.vs", "a, b , c", "", ","], lambda: ["spec.n", "spec"], lambda: ["X.geff", "X", 0], lambda: ["X.config", "X"]]
    Q += [lambda: ["math.deBoerD", x()], lambda: ["math.deBoerV", *[r.uniform(.1, 3) for _ in range(7)]], lambda: ["math.erfc", r.uniform(-2, 2)], lambda: ["math.fwhm", x(), .1, .12, .00385],
          lambda: ["ini.vi", "1, 2, x", -1, ","], lambda: ["ini.d", "2.5", 0.0], lambda: ["ini.i", "7", 0], lambda: ["epdl.muall", "ep", r.randint(1, 99)], lambda: ["epdl.pw", "ep", r.randint(1, 99), x()],
          lambda: ["epdl.pwv", "ep", r.randint(1, 99), es()], lambda: ["epdl.getb", "ep", r.randint(1, 99)], lambda: ["el.edges", "el"], lambda: ["el.edgesv", "el", [1.0, 2.0, 2.0, 3.0], [5.0, 1.0, 9.0, 2.0]],
          lambda: ["el.excv", "el", es(), []], lambda: ["el.ck", "el", r.choice(SH)], lambda: ["el.auger", "el", r.choice(SH)], lambda: ["el.indices", "el", es(), x()], lambda: ["el.bind", "el"], lambda: ["el.ccFilled", "el"],
          lambda: ["el.cEnabled", "el"], lambda: ["el.cSize", "el"], lambda: ["E.defined", h, el()], lambda: ["E.names", h], lambda: ["E.material", h, mat()], lambda: ["E.materialCopy", h, mat()], lambda: ["E.materials", h],
          lambda: ["E.compMM", h, {el(): .5, "SiO2": 1.0}, ["m"]], lambda: ["E.escEnabled", h], lambda: ["E.ccFilled", h, el()], lambda: ["E.cEnabled", h, el()], lambda: ["mat.get", "m"], lambda: ["det.transv", "det", es(), h, 90.0],
          lambda: ["det.mu", "det", x(), h], lambda: ["det.muv", "det", es(), h], lambda: ["det.families", "det", x(), h], lambda: ["X.print", "X"], lambda: ["X.lmuv", "X", "layer", es(), h]]
    # what must be refused must be refused to everyone
    Q += [lambda: ["E.comp", h, "Nothing"], lambda: ["E.mu", h, "Fe", -1.0], lambda: ["el.rad", "el", "Z9"], lambda: ["E.families", h, "Zz", 5.0]]
    return [f() for f in (Q if r.random() < .5 else [r.choice(Q) for _ in range(r.randint(10, 60))])]


def setup_queries(r, G, cfg, h, deep):
    req = G.requests(cfg, 2, .1)
    els, fams, ls = [e for e, f, l in req], [f for e, f, l in req], [l for e, f, l in req]
    out = [["X.fluo", "X", h, els, ls, fams, 0, 1, 1, 0.0, None], ["X.multi", "X", h, ["%s %s" % (e, f) for e, f in zip(els, fams)], 0, 0, 1, 0.0, "beam"], ["X.one", "X", h, els[0], 0, fams[0], 0, 1, 0, 0.0, None],
           ["X.ethreshold", "X", els[0], fams[0], h], ["X.lcomp", "X", "layer", h], ["X.lmu", "X", "layer", 12.0, h], ["X.ltransv", "X", "layer", [5.0, 20.0], h, 45.0], ["X.lfamilies", "X", "layer", 30.0, h],
           ["X.multi", "X", h, ["garbage"], 0, 0, 1, 0.0, None]]
    if deep:
        out += [["X.fluo", "X", h, els[:1], ls[:1], fams[:1], deep, 1, 1, 0.0, None], ["X.multi", "X", h, ["%s %s" % (els[0], fams[0])], deep, 1, 1, 0.0, None]]
    return out, req


def private(c, r, lab, G, h, files):
    """A script every thread runs on objects of its own: they share nothing but the library."""
    R = lab.R
    out = []
    kinds = subset(r, ["setup", "element", "shell", "layer", "files", "library", "epdl", "detector"], 1, 4)
    for k in kinds:
        if k == "setup":
            cfg = G.config(nlayers=2, nray=1, nmax=2, thick=-1, thin=-4)
            cmds = G.commands(cfg, "x%T")
            # private handles for everything the setup is made of
            own = {}
            res = []
            for q in cmds:
                if q[0].endswith(".new") and q[0] != "X.new":
                    own[(q[0].split(".")[0], q[1])] = q[1] + "%T"
                res.append(q)
            names = {v for k2, v in own.items()}
            orig = {k2[1] for k2 in own}

            def ren(o):
                if isinstance(o, str):
                    return o + "%T" if o in orig else o
                if isinstance(o, list):
                    return [ren(z) for z in o]
                return o
            out += [[q[0]] + [ren(z) for z in q[1:]] for q in res]
            q, _ = setup_queries(r, G, cfg, h, r.choice([0, 0, 1]))
            q = [[z[0]] + ["x%T" if y == "X" else y for y in z[1:]] for z in q]
            out += q + [["X.read", "x%T", files["ini"]], ["X.config", "x%T"]]
        elif k == "element":
            import c13_usermu
            e = r.choice(["Fe", "Pb", "Ca", "Gd"])
            out += [["el.from", "el%T", h, e], ["el.mu", "el%T", 10.0], ["el.setMu", "el%T"] + list(c13_usermu.supplied(r, R.el[e])), ["el.mu", "el%T", 10.0], ["el.cEnable", "el%T", 1], ["el.cFill", "el%T", [5.0, 10.0]],
                    ["el.muv", "el%T", [5.0, 7.0, 10.0]], ["el.ccEnable", "el%T", 1], ["el.ccFill", "el%T"], ["el.cascade", "el%T", {"K": 1.0, "L1": .5}], ["el.edges", "el%T"], ["el.auger", "el%T", "K"], ["el.bind", "el%T"]]
        elif k == "shell":
            s = r.choice(["K", "L1", "M1"])
            out += [["shell.new", "sh%T", s], ["shell.radm", "sh%T", dict(shellgen.rad(r, s))], ["shell.nonm", "sh%T", dict(shellgen.non(r, s))], ["shell.const", "sh%T", shellgen.consts(r, s)], ["shell.fluo", "sh%T"], ["shell.auger", "sh%T"],
                    ["shell.transfer", "sh%T", "L3"]]
        elif k == "layer":
            out += [["mat.new", "m%T", "M", 2.0, .1, ""], ["mat.compM", "m%T", matgen.composition(r, R.order[3:92])], ["layer.new", "l%T", "M", 2.0, .01, 1.0], ["layer.matM", "l%T", "m%T"], ["layer.transv", "l%T", [5.0, 10.0], h, 45.0],
                    ["beam.new", "b%T"], ["beam.single", "b%T", 12.0, 0.0], ["beam.rays", "b%T"], ["tt.new", "t%T"], ["tt.setVec", "t%T", [1.0, 5.0], [.1, .9], "", ""], ["tt.atv", "t%T", [2.0, 6.0]]]
        elif k == "files":
            out += [["ini.new", "i%T", files["ini"]], ["ini.sections", "i%T"], ["ini.section", "i%T", "fit", 1], ["spec.new", "s%T", files["spec"]], ["spec.n", "s%T"], ["spec.labels", "s%T", 0], ["spec.data", "s%T", 1]]
        elif k == "library":
            out += [["E.assign", "e%T", h], ["E.addMaterialS", "e%T", "Mine", 1.0, 1.0, "", 0], ["E.setCompM", "e%T", "Mine", {"Fe": .5, "Pb": .5}], ["E.comp", "e%T", "Mine"], ["E.escEnable", "e%T", 1],
                    ["E.escUpdate", "e%T", {"Si": 1.0}, [5.0, 8.0], .01, 1e-7, 4, 90.0, 0.0], ["E.escape", "e%T", {"Si": 1.0}, 8.0, .01, 1e-7, 4, 90.0, 0.0], ["E.cEnable", "e%T", "Fe", 1], ["E.cFill", "e%T", "Fe", [9.0]], ["E.mu", "e%T", "Fe", 9.0],
                    ["E.mu", "e%T", "Mine", 9.0]]
        elif k == "epdl":
            out += [["epdl.new", "p%T"], ["epdl.loadb", "p%T", files["bind"]], ["epdl.getb", "p%T", 26]]
        elif k == "detector":
            out += [["det.new", "d%T", "Si", 2.33, .05, 1.0], ["det.escape", "d%T", 9.0, h, "", 0], ["det.escape", "d%T", 9.0, h, "label", 1], ["det.trans", "d%T", 9.0, h, 90.0]]
    return out


def worker(c, w):
    r = c.rng
    t0 = time.time()
    D = c.driver("tsan", timeout=200, env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4"})
    lab = Lab(c, ["default", "pymca"][w % 2], driver=D, handle="base")
    G = xrfgen.Gen(lab, r)
    ini = c.write("%sa.ini" % c.worker, "[attenuators]\nDetector = 1, Si, 2.33, 0.05, 1.0\nMatrix = 1, SiO2, 2.0, 0.01, 45.0, 45.0, 0, 90.0\n[fit]\nenergy = 20, 10\nenergyweight = 1, 1\nenergyflag = 1, 1\n[concentrations]\nuseattenuators=1\n")
    files = {"ini": ini, "spec": os.path.join(lab.dir, "KShellRates.dat"), "bind": os.path.join(lab.dir, "EADL97_BindingEnergies.dat")}
    D.call("epdl.new", "ep", lab.dir)
    D.call("spec.new", "spec", files["spec"])
    run = 0
    while (time.time() - t0 < c.size(24, 800)) or run < 2:
        run += 1
        G.h = "X"
        h = "E"
        # fresh objects: whatever they compute on first use is computed by the threads
        cmds = [["E.copy", h, "base"]]
        els = subset(r, lab.R.order[3:92], 2, 6)
        m = r.randrange(4)
        if m == 0:
            cmds += [q for e in els for q in (["E.cEnable", h, e, 1], ["E.cFill", h, e, [5.0, 10.0, 33.0]])]
        elif m == 1:
            cmds += [q for e in els for q in (["E.ccEnable", h, e, 1], ["E.ccFill", h, e])]
        elif m == 2:
            cmds += [["E.escEnable", h, 1], ["E.escUpdate", h, {"Si": 1.0}, [5.0, 8.0], .01, 1e-7, 4, 90.0, 0.0]]
        e = r.choice(["Fe", "Pb", "U", "Sn"])
        s = r.choice(["K", "L1", "L2", "M1"])
        cmds += [["el.from", "el", h, e], ["shell.new", "sh", s], ["shell.radm", "sh", dict(shellgen.rad(r, s))], ["shell.nonm", "sh", dict(shellgen.non(r, s))], ["shell.const", "sh", shellgen.consts(r, s)],
                 ["mat.new", "m", "M", 2.0, .1, ""], ["mat.compM", "m", {"Fe": .5, "SiO2": .5}], ["layer.new", "layer", r.choice(["SiO2", "Fe", "Alloy3", "M"]), 2.0, .01, .9], ["layer.matM", "layer", "m"],
                 ["det.new", "det", "Ge", 5.3, .1, 1.0], ["beam.new", "beam"], ["beam.set", "beam", [20.0, 33.0], [1.0, .5], [1, 0], []], ["tt.new", "tt"], ["tt.setVec", "tt", [1.0, 9.0, 30.0], [.1, .8, .99], "", ""]]
        if r.random() < .5:
            cmds += [["el.ccEnable", "el", 1]] + ([["el.ccFill", "el"]] if r.random() < .5 else [])
        if r.random() < .3:
            cmds += [["el.cEnable", "el", 1], ["el.cFill", "el", [5.0, 10.0]]]
        for q, g in zip(cmds, D.batch(cmds)):
            if isinstance(g, LibError) and q[0] not in ("layer.matM",):
                c.fail("setup", "%s refused: %s" % (_j(q), g))
        cfg = G.config(nlayers=2, nray=2, nmax=2, thick=-1, thin=-4)
        for q, g in zip(G.commands(cfg, "X"), D.batch(G.commands(cfg, "X"))):
            pass
        G.apply(cfg, "X")
        q1 = shared(c, r, lab, h)
        q2, _ = setup_queries(r, G, cfg, h, r.choice([0, 0, 0, 1, 2]))
        q = q1 + q2 if r.random() < .7 else q2 if r.random() < .5 else q1
        r.shuffle(q)
        priv = private(c, r, lab, G, h, files) if r.random() < .6 else []
        n = r.choice([2, 3, 4, 8])
        if priv:
            ids = [str(i) for i in range(n)] + ["ref"]
            made = sorted({z[:-2] for cmd in priv for z in flat(cmd) if isinstance(z, str) and z.endswith("%T")})
            kinds = {z[1][:-2]: z[0].split(".")[0] for z in priv if isinstance(z[1], str) and z[1].endswith("%T")}
            new = {"X": [], "el": [], "shell": ["K"], "mat": [], "layer": ["Fe", 1.0, 1.0, 1.0], "beam": [], "tt": [], "ini": [], "spec": [], "epdl": [], "det": ["Si", 1.0, 1.0, 1.0]}
            pre = []
            for z in made:
                k = kinds.get(z)
                pre += [["E.copy", z + i, h] if k == "E" else [k + ".new", z + i] + new[k] for i in ids if k]
            D.raw(pre)
        rounds = r.choice([1, 2, 3])
        c.context = {"shared": q[:8], "private": priv[:6], "threads": n}
        g = D.call("par", n, r.randrange(10 ** 6), rounds, r.choice([0, 1]), q, priv)
        if g["harness"]:
            raise HarnessError("par: %r" % [x for x in q + priv if "harness" in json.dumps(D.raw([x]))][:3])
        for t, i, got, want in g["bad"]:
            cmd = (q + priv)[i]
            d = ""
            try:
                d = diff(json.loads(got)["ok"], json.loads(want)["ok"], 0.0)
            except (ValueError, KeyError):
                pass
            c.fail("answer:" + cmd[0], "%s gives %s in thread %d of %d but %s alone (%s)" % (_j(cmd), got[:500], t, n, want[:500], d), {"shared": q, "private": priv})
        c.case(g["schedule"], "runs_with_%d_threads" % n)
        c.count("concurrent_calls", g["calls"])
        c.count("thread_switches_between_calls", g["switches"])
        c.count("refused_alike", g["refused"])
        if run % 20 == 1:
            c.sample({"threads": n, "rounds": rounds, "calls": g["calls"], "switches": g["switches"], "shared": [_j(x)[:100] for x in q[:5]], "private": [_j(x)[:100] for x in priv[:4]]})
    c.count("runs", run)


def flat(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            for y in flat(x):
                yield y
    else:
        yield o


def python(c):
    """The Python package, which releases the interpreter lock."""
    jobs = []
    lib = c.extra.pop("lib")
    for k in range(3):
        err = open(os.path.join(c.tmp, "py%d.err" % k), "w+")
        cmd = ["/opt/fisx/venv/bin/python", os.path.join(build.VERIF, "harness", "pythreads.py"), lib, c.datadir(1 + c.seed % 3), str(1000 * c.seed + k), str(c.size(12, 400)), os.path.join(c.tmp, "py%d.json" % k)]
        jobs.append((cmd, err, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))))
    for cmd, err, p in jobs:
        try:
            code = p.wait(c.size(120, 700))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            c.fail("python:stuck", "threads of the Python package did not end: %s" % " ".join(cmd[1:]))
            continue
        err.seek(0)
        if code:
            c.fail("python:died", "the Python process with threads ended with %d: %s" % (code, err.read()[-800:]))
            continue
        with open(cmd[-1]) as f:
            g = json.load(f)
        for b in g["bad"]:
            c.fail("python:" + b[1], "%s%s of %s gives %s in thread %d but %s alone" % (b[1], b[2], _j(b[3]), b[4], b[0], b[5]), b)
        for n, h in g["threads"]:
            c.case(("py", n, h), "python_runs_with_%d_threads" % n)
        c.count("python_calls", g["calls"])
        c.count("python_switches", g["switches"])
        c.count("python_refused", g["refused"])


def main(c):
    sys.path.insert(0, os.path.join(build.VERIF, "checks"))
    t = threading.Thread(target=lambda: c.extra.__setitem__("lib", build.build_python()))
    t.start()
    build.build("tsan")
    c.datadir(1 + c.seed % 3)
    c.fork(4, worker)
    t.join()
    if "lib" not in c.extra:
        c.fail("python:build", "the Python package cannot be built")
        return
    python(c)


if __name__ == "__main__":
    Check("C03", RULE).run(main)
