"""C23: secondary fluorescence enhancement is complete and correct."""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import xrfgen, refxrf
RULE = ("random layered setups x requests with enhancement: the secondary rate of every line and every contribution listed under it compared with the sum of "
        "the intra- and inter-layer integrals over all exciting lines; a case is one line, contributions are counted")


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    lab = Lab(c, ["default", "pymca", "default", "custom"][w % 4], driver=D)
    G = xrfgen.Gen(lab, r)
    t0 = time.time()
    run = 0
    while run < c.size(200, 100000) and time.time() - t0 < c.size(14, 600):
        run += 1
        cfg = G.config(nlayers=r.choice([4] * 15 + [9]), nmax=3, nray=2, thick=r.choice([-1, 0, -2]), thin=r.choice([-5, -4]), extras=r.random() < .3, detector=r.random() < .3)
        c.context = xrfgen.slim(cfg)
        G.apply(cfg)
        memo = refxrf.Memo(lab.R)
        req = G.requests(cfg, r.randint(1, 3), .05)
        sec = r.choice([1, 1, 2])
        mass = r.choice([1, 1, 1, 0])
        limit = r.choice([0.0, 0.0, 0.0, 10 ** r.uniform(-6, 0)])
        # model-free first: never below the primary rate, and the primary is the one without enhancement
        cmd = G.fluo(req, sec, 1, mass, limit)
        g, g0 = D.attempt(*cmd), D.attempt(*(cmd[:6] + [0] + cmd[7:]))
        if isinstance(g, LibError) or isinstance(g0, LibError):
            c.fail("raised", "%s raised %s %s" % (_j(cmd), g if isinstance(g, LibError) else "", g0 if isinstance(g0, LibError) else ""))
            continue
        want, near = refxrf.multilayer(lab.R, cfg, req, sec, 1, mass, limit, xrfgen.interp, memo)
        if any(limit and abs(d["rate"] - limit) < 1e-6 * limit for l in cfg["sample"] for el in l["comp"] for x, _ in cfg["beam"] for d in memo.exc(el, x).values()):
            continue
        n = xrfgen.compare(c, "secondary", _j(cmd), g, want, near, totals=False, contributions=True)
        a, b = xrfgen.clean(g), xrfgen.clean(g0)
        for k in a:
            for i in a[k]:
                for line, x in a[k][i].items():
                    y = b.get(k, {}).get(i, {}).get(line)
                    if y is None:
                        c.fail("lines", "'%s' layer %d line '%s' only appears with enhancement" % (k, i, line))
                        continue
                    c.expect(x["primary"] == y["primary"], "primary", "'%s' layer %d line '%s': primary %r with, %r without enhancement" % (k, i, line, x["primary"], y["primary"]))
                    sc = want.get(k, {}).get(i, {}).get(line, {}).get("_tol", 0.0)
                    c.expect(x["secondary"] >= -1e-6 * sc, "negative", "'%s' layer %d line '%s': secondary %r" % (k, i, line, x["secondary"]))
        for i in range(n):
            c.case((w, run, i), "lines")
        c.count("layers_%d" % len(cfg["sample"]))
    c.sample(xrfgen.slim(cfg))


if __name__ == "__main__":
    Check("C23", RULE).run(main)
