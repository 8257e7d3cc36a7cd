"""C22: primary fluorescence follows the fundamental parameter equation."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import xrfgen, refxrf
RULE = ("random setups (1-5 layers, filters, user tables, attenuators, detectors, geometries, beams of several energies) x random requests x options without "
        "enhancement; every field of every line compared with the closed-form model; a case is one line")


def main(c):
    build.build("plain")
    c.datadir(1 + c.seed % 3)
    c.fork(8, worker)


def worker(c, w):
    r, D = c.rng, c.driver("plain")
    lab = Lab(c, ["default", "pymca", "default", "custom"][w % 4], driver=D)
    G = xrfgen.Gen(lab, r)
    for run in range(c.size(30, 900)):
        cfg = G.config(nlayers=5, nray=5, thick=r.choice([-1, 0]), thin=r.choice([-5, -5, -7]), big=0.06)
        c.context = xrfgen.slim(cfg)
        G.apply(cfg)
        memo = refxrf.Memo(lab.R)
        for k in range(3):
            req = G.requests(cfg, r.randint(1, 4))
            geo, mass = r.choice([(1, 1), (1, 1), (0, 1), (1, 0), (0, 0)])
            want, near = refxrf.multilayer(lab.R, cfg, req, 0, geo, mass, 0.0, xrfgen.interp, memo)
            cmd = G.fluo(req, 0, geo, mass)
            n = xrfgen.compare(c, "primary", _j(cmd), D.attempt(*cmd), want, near)
            for i in range(n):
                c.case((w, run, k, i), "lines")
            c.count("requests" if n else "empty_answers")
    c.sample(xrfgen.slim(cfg))


if __name__ == "__main__":
    Check("C22", RULE).run(main)
