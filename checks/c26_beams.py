"""C26: a polychromatic answer is the weighted sum over the rays."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import xrfgen
RULE = ("random setups with beams of 2-12 rays, filters and user tables: the answer against the sum of the single-ray answers, against reordered, split, scaled beams, "
        "and against a beam without filters whose weights carry their transmission; a case is one compared pair of answers")
CONST = ("energy", "energy_threshold", "efficiency", "mu_1_i", "massFraction", "ratio")


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def add(total, g, f):
    for k, layers in g.items():
        for i, lines in layers.items():
            for line, x in lines.items():
                y = total.setdefault(k, {}).setdefault(i, {}).setdefault(line, {})
                for n, v in x.items():
                    if n in CONST:
                        y[n] = v
                    else:
                        y[n] = y.get(n, 0.0) + f * v
    return total


def scaled(g, f):
    return add({}, g, f)


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    lab = Lab(c, ["default", "pymca", "default", "custom"][w % 4], driver=D)
    G = xrfgen.Gen(lab, r)
    t0 = time.time()
    run = 0
    while run < c.size(150, 100000) and time.time() - t0 < c.size(13, 400):
        run += 1
        cfg = G.config(nlayers=3, nmax=3, nray=r.choice([2, 4, 8, 12]), thick=-1, thin=-4, big=0.06)
        c.context = xrfgen.slim(cfg)
        G.apply(cfg)
        rays = cfg["rawbeam"]
        tot = sum(v for x, v in rays)
        sec = r.choice([0, 0, 1]) if len(rays) < 6 else 0
        mass, limit = r.choice([1, 1, 0]), r.choice([0.0, 0.0, 1e-5])
        req = G.requests(cfg, r.randint(1, 3), .05)
        fixed = G.fluo(req, sec, 1, mass, limit)

        def ask(beam, h="X"):
            q = list(fixed)
            q[1] = h
            if beam is not None:
                D.call("beam.new", "b")
                D.call("beam.set", "b", [x for x, v in beam], [v for x, v in beam], [r.randint(0, 1) for _ in beam] if r.random() < .5 else [], [r.random() for _ in beam] if r.random() < .5 else [])
                q[10] = "b"
            g = D.attempt(*q)
            if isinstance(g, LibError):
                c.fail("raised", "%s with beam %s raised %s" % (_j(q), beam, g))
                return {}
            return xrfgen.clean(g)

        def pair(what, got, want, key):
            c.case((w, run, key), key)
            d = diff(got, want, 1e-8, 1e-85)
            if d:
                c.fail(key, "%s, requests %s: %s" % (what, req, d))
        base = ask(None)
        c.count("rays", len(rays))
        c.count("lines", sum(len(l) for x in base.values() for l in x.values()))
        total = {}
        for x, v in rays:
            add(total, ask([(x, r.choice([1.0, v]))]), v / tot)
        pair("beam %s against the sum over its rays" % rays, base, total, "sum")
        other = rays[:]
        r.shuffle(other)
        pair("beam %s against %s" % (rays, other), ask(other), base, "order")
        f = 10 ** r.uniform(-6, 6)
        pair("beam %s scaled by %r" % (rays, f), ask([(x, v * f) for x, v in rays]), base, "scale")
        other = []
        for x, v in rays:
            s = r.uniform(.1, .9) if r.random() < .6 else 1.0
            other.append((x, v * s))
            if s < 1:
                other.append((x, v * (1 - s)))
        r.shuffle(other)
        pair("beam %s against %s" % (rays, other), ask(other), base, "split")
        k = r.randint(1, len(rays) - 1) if len(rays) > 1 else 1
        parts = [p for p in (rays[:k], rays[k:]) if p]
        total = {}
        for p in parts:
            add(total, ask(p), sum(v for x, v in p) / tot)
        pair("beam %s cut at ray %d" % (rays, k), total, base, "cut")
        # the filters move into the weights
        if cfg["filters"] or cfg["ufilters"]:
            weights = []
            for x, v in rays:
                for l in cfg["filters"]:
                    cmds = []
                    spec = G.layer_cmds(l, cmds)
                    for q in cmds:
                        D.call(*q)
                    D.call("layer.new", "lf", *spec[:4])
                    if l["own"]:
                        D.call("layer.matM", "lf", l["mat"])
                    v *= D.call("layer.trans", "lf", x, lab.h, 90.0)
                for t in cfg["ufilters"]:
                    v *= xrfgen.interp(t, x)
                weights.append((x, v))
            s = sum(v for x, v in weights)
            if s > 1e-250 * tot:
                D.call("X.copy", "Z", "X")
                D.call("X.filters", "Z", [])
                D.call("X.ufilters", "Z", [])
                # rays that do not get through excite nothing
                weights = [(x, v) for x, v in weights if v > 0]
                got = ask(weights, "Z")
                pair("beam %s behind its filters against weights %s" % (rays, weights), xrfgen.clean(scaled(got, s / tot)), base, "filters")
    c.sample(xrfgen.slim(cfg))


if __name__ == "__main__":
    Check("C26", RULE).run(main)
