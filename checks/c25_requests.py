"""C25: a request returns exactly what it names."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import xrfgen, refxrf
RULE = ("random setups and sets of requests: each request alone, all together, reordered, through the three request forms, split into families and layers, with each "
        "option changed and with an explicit beam; the list of lines against the reference model; malformed requests; a case is one compared pair of answers")


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def merge(answers):
    out = {}
    for g in answers:
        for k, layers in g.items():
            for i, lines in layers.items():
                out.setdefault(k, {}).setdefault(i, {}).update(lines)
    return out


def regroup(g, keyname):
    """All lines of an answer under one key."""
    out = {}
    for k, layers in g.items():
        for i, lines in layers.items():
            out.setdefault(keyname, {}).setdefault(i, {}).update(lines)
    return out


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    lab = Lab(c, ["default", "pymca", "default", "custom"][w % 4], driver=D)
    G = xrfgen.Gen(lab, r)
    t0 = time.time()
    run = 0
    while run < c.size(150, 100000) and time.time() - t0 < c.size(13, 400):
        run += 1
        cfg = G.config(nlayers=4, nmax=3, nray=2, thick=-1, thin=-4, big=0.08)
        n = len(cfg["sample"])
        c.context = xrfgen.slim(cfg)
        G.apply(cfg)
        req = G.requests(cfg, r.randint(1, 5), .1)
        sec, geo, mass, limit = r.choice([0, 0, 0, 1]), r.choice([1, 1, 0]), r.choice([1, 1, 1, 0]), r.choice([0.0, 0.0, 1e-4])
        opts = (sec, geo, mass, limit)

        def ask(q, *o, **k):
            o = o or opts
            cmd = G.fluo(q, o[0], o[1], o[2], o[3], k.get("beam"))
            g = D.attempt(*cmd)
            if isinstance(g, LibError):
                c.fail("raised", "%s raised %s" % (_j(cmd), g))
                return {}
            return xrfgen.clean(g)

        def pair(what, got, want, key, rel=1e-9):
            c.case((w, run, what, key), key)
            d = diff(got, want, rel, 1e-85)
            if d:
                c.fail(key, "%s (options %s): %s" % (what, opts, d))
        base = ask(req)
        c.count("lines", sum(len(l) for x in base.values() for l in x.values()))
        # the answer contains only what was asked for
        for k, layers in base.items():
            el, fam = k.split(" ")
            ls = [l for e, f, l in req if (e, f) == (el, fam)]
            c.expect(ls, "extra", "%s not requested in %s" % (k, req))
            for i, lines in layers.items():
                c.expect(ls and (ls[0] < 0 or ls[0] == i) and 0 <= i < n, "extra", "%s answered for layer %d, requested %s" % (k, i, ls))
                for line in lines:
                    ok = line[0] == "K" and (line[1] == "L") == (fam == "Ka") if fam in ("Ka", "Kb") else line.startswith(fam)
                    c.expect(ok, "extra", "line %s in the answer for %s" % (line, k))
        # and all of it: every line the reference model finds for the request, in every layer
        want, near = refxrf.multilayer(lab.R, cfg, req, 0, geo, mass, 0.0, xrfgen.interp)
        cmd = G.fluo(req, 0, geo, mass, 0.0)
        for i in range(xrfgen.compare(c, "complete", _j(cmd), D.attempt(*cmd), want, near, fields=("energy",), totals=False)):
            c.case((w, run, "line", i), "complete")
        pair("requests %s: union of single answers" % req, merge([ask([q]) for q in req]), base, "alone")
        perm = req[:]
        r.shuffle(perm)
        pair("requests %s against %s" % (perm, req), ask(perm), base, "order")
        more = req + [q for q in G.requests(cfg, 2) if not any(a[:2] == q[:2] for a in req)]
        g = ask(more)
        pair("requests %s seen among %s" % (req, more), {k: v for k, v in g.items() if any(k == "%s %s" % q[:2] for q in req)}, base, "among")
        # the other forms
        strings = ["%s %s%s" % (e, f, "" if l < 0 and r.random() < .6 else " %d" % l) for e, f, l in req]
        g = D.attempt("X.multi", G.h, lab.h, strings, sec, geo, mass, limit, None)
        if isinstance(g, LibError):
            c.fail("raised", "%s raised %s" % (strings, g))
        else:
            pair("%s against lists" % strings, xrfgen.clean(g), base, "strings")
        e, f, l = q = r.choice(req)
        l1 = l if l >= 0 else r.randrange(n)
        g = D.attempt("X.one", G.h, lab.h, e, l1, f, sec, geo, mass, limit, None)
        if isinstance(g, LibError):
            c.fail("raised", "single request %s raised %s" % (q, g))
        else:
            pair("single request %s" % (q,), xrfgen.clean(g), {k: {l1: v[l1]} for k, v in base.items() if k == "%s %s" % (e, f) and l1 in v}, "single")
        # families and layers
        for e, f, l in [q] + ([x + (-1,) for x in [cfg.get("focus")] if x]):
            if f not in ("K", "L", "M"):
                continue
            parts = {"K": ["Ka", "Kb"], "L": ["L1", "L2", "L3"], "M": ["M1", "M2", "M3", "M4", "M5"]}[f]
            pair("%s as %s" % ((e, f, l), parts), regroup(ask([(e, p, l) for p in parts]), "x"), regroup(ask([(e, f, l)]), "x"), "subfamilies")
        e, f, l = q
        if l < 0:
            pair("%s as one layer each" % (q,), merge([ask([(e, f, k)]) for k in range(n)]), {k: v for k, v in base.items() if k == "%s %s" % (e, f)}, "layers")
        pair("%s in layer %d that does not exist" % ((e, f), n), ask([(e, f, n + r.randint(0, 2))]), {}, "nolayer")
        # options
        geffs = [D.call("X.geff", G.h, i) for i in range(n)]
        on = base if geo else ask(req, sec, 1, mass, limit)
        off = base if not geo else ask(req, sec, 0, mass, limit)
        want = {k: {i: {line: {f: v * (geffs[i] if f == "efficiency" or f == "rate" else 1) for f, v in x.items()} for line, x in lines.items()} for i, lines in layers.items()} for k, layers in off.items()}
        pair("requests %s with and without geometric efficiency %s" % (req, geffs), on, want, "geometry")
        on = base if mass else ask(req, sec, geo, 1, limit)
        off = base if not mass else ask(req, sec, geo, 0, limit)
        want = {}
        for k, layers in off.items():
            for i, lines in layers.items():
                m = cfg["sample"][i]["comp"].get(k.split(" ")[0], 0.0)
                if m > 0:
                    want.setdefault(k, {})[i] = {line: {f: v * (1 if f in ("energy", "energy_threshold", "efficiency", "mu_1_i", "massFraction", "ratio") else m) for f, v in x.items()} for line, x in lines.items()}
        pair("requests %s with and without mass fractions" % req, on, want, "mass")
        # an explicit beam
        es = [x * r.uniform(.8, 1.2) for x, _ in cfg["rawbeam"]]
        es = [x for x in es if all(away(lab.R.el[s], x) == x for y in cfg["sample"] for s in y["comp"])] or [r.uniform(61, 70)]
        ws = [r.uniform(.1, 3) for _ in es]
        D.call("beam.new", "b")
        D.call("beam.set", "b", es, ws, [], [])
        one = ask(req, *opts, **{"beam": "b"})
        pair("requests %s after an explicit beam was used" % req, ask(req), base, "beamkept")
        D.call("X.copy", "Y", G.h)
        D.call("X.beamB", "Y", "b")
        G.h = "Y"
        two = ask(req)
        G.h = "X"
        pair("requests %s with explicit beam %s against the configured one" % (req, [es, ws]), one, two, "beam")
        # malformed requests
        for cmd in [["X.fluo", G.h, lab.h, [e], [], [f], 0, 1, 1, 0.0, None], ["X.fluo", G.h, lab.h, [e, e], [-1, -1], ["K"], 0, 1, 1, 0.0, None],
                    ["X.fluo", G.h, lab.h, [e, e, e], [-1, 0], ["K", "L", "M"], 0, 1, 1, 0.0, None],
                    ["X.fluo", G.h, lab.h, [r.choice(["Xx", "", "cr", "Alloy1", "Fe2O3"])], [-1], [f], 0, 1, 1, 0.0, None], ["X.fluo", G.h, lab.h, [e], [-1], [""], 0, 1, 1, 0.0, None],
                    ["X.multi", G.h, lab.h, [r.choice([e, "", "%s %s x" % (e, f), "%s %s 0 1" % (e, f), "Xx K"])], 0, 1, 1, 0.0, None],
                    ["X.one", G.h, lab.h, e, 0, "", 0, 1, 1, 0.0, None], ["X.one", G.h, lab.h, e, -1, f, 0, 1, 1, 0.0, None], ["X.one", G.h, lab.h, "Xx", 0, f, 0, 1, 1, 0.0, None]]:
            g = D.attempt(*cmd)
            c.case((w, run, str(cmd)), "malformed")
            c.expect(isinstance(g, LibError), "malformed", "%s accepted: %s" % (_j(cmd), _j(g)))
    c.sample(xrfgen.slim(cfg))


if __name__ == "__main__":
    Check("C25", RULE).run(main)
