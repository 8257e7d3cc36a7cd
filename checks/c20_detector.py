"""C20: solid angle and state of the detector."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import refxrf
RULE = ("random setups of 1 to 8 layers with every reference layer, exit angle, detector diameter, area and distance, changed step by step with accepted "
        "and refused values; every layer's geometric efficiency compared with the closed form; a case is one efficiency")


def work(c, w):
    r, D = c.rng, c.driver()
    for run in range(c.size(350, 8000)):
        n = r.randint(1, 8)
        layers = [{"name": r.choice(["Fe", "Si", "H2O"]), "density": r.uniform(.1, 10), "thickness": r.choice([10 ** r.uniform(-6, 0), r.uniform(.01, 3)])} for _ in range(n)]
        refl = r.randrange(n)
        D.call("X.new", "x")
        D.call("X.sample", "x", [[l["name"], l["density"], l["thickness"], 1.0] for l in layers], refl)
        D.call("det.new", "d", "Si", 2.33, .05, 1.0)
        det = {"diameter": 0.0, "distance": 10.0}
        ai, ao = 45.0, 45.0
        for step in range(r.randint(1, 6)):
            op = r.choice(["diameter", "diameter", "area", "distance", "geometry", "badsample", "sample"])
            ok = True
            if op == "diameter":
                v = r.choice([0.0, -1.0, -1e-9, r.uniform(.01, 3), r.uniform(.01, 3), 10 ** r.uniform(-6, 3)])
                cmd, ok = ["det.diameter", "d", v], v >= 0
                if ok:
                    det["diameter"] = v
            elif op == "area":
                v = r.choice([0.0, -1.0, -1e-9, r.uniform(.01, 3), r.uniform(.01, 3), 10 ** r.uniform(-6, 3)])
                cmd, ok = ["det.area", "d", v], v >= 0
                if ok:
                    det["diameter"] = 2 * math.sqrt(v / math.pi)
            elif op == "distance":
                v = r.choice([0.0, -1.0, r.uniform(.01, 10), r.uniform(.01, 10), 10 ** r.uniform(-6, 3)])
                cmd, ok = ["det.distance", "d", v], v > 0
                if ok:
                    det["distance"] = v
            elif op == "geometry":
                ai, ao = r.uniform(1, 90), r.choice([90.0, 45.0, r.uniform(.5, 179.5)])
                cmd = ["X.geometry", "x", ai, ao, r.choice([-1.0, 90.0])]
            elif op == "sample":
                refl = r.randrange(n)
                cmd = ["X.sample", "x", [[l["name"], l["density"], l["thickness"], 1.0] for l in layers], refl]
            else:
                cmd, ok = ["X.sample", "x", [["Fe", 1.0, 1.0, 1.0]] * 2, r.choice([2, 7, -1])], False
            c.context = [run, step, cmd]
            g = D.attempt(*cmd)
            c.expect(isinstance(g, LibError) != ok, op + (":refused" if ok else ":accepted"), "%s gave %s" % (_j(cmd), g))
            if not ok:
                c.count("refused")
            g = D.call("det.get", "d")
            c.same([g["diameter"], g["distance"], g["area"]], [det["diameter"], det["distance"], math.pi / 4 * det["diameter"] ** 2], "state", "detector after %s " % _j(cmd), 1e-12)
            if r.random() < .3:
                D.call("det.copy", "d", "d")
            D.call("X.detector", "x", "d")
            cfg = {"detector": det, "alphaOut": ao, "sample": layers, "ref": refl}
            got = D.batch([["X.geff", "x", i] for i in range(n)] + [["X.geff", "x", n], ["X.geff", "x", -1]])
            prev = None
            for i in range(n):
                w = refxrf.geff(cfg, i)
                x = det["distance"] + sum(l["thickness"] for l in layers[refl:i]) / math.sin(math.radians(ao)) - sum(l["thickness"] for l in layers[i:refl]) / math.sin(math.radians(ao))
                # the closed form cancels when the detector is small and far away
                c.same(got[i], w, "efficiency", "geometric efficiency of layer %d of %s " % (i, _j(cfg)), 1e-9, 2e-16 * (1 + sum(l["thickness"] for l in layers) * 4 / (abs(x) + 1e-300)) * 4)
                if det["diameter"] > 0 and x >= 0:
                    c.expect(0 <= got[i] <= .5, "half", "geometric efficiency %r with the detector in front of the sample" % got[i])
                if prev is not None:
                    c.expect(got[i] <= prev + 1e-15, "distance", "the fraction grows from %r to %r with the depth of the layer" % (prev, got[i]))
                prev = got[i]
                c.case((run, step, i), "efficiencies")
            for g in got[n:]:
                if det["diameter"] > 0:
                    c.expect(isinstance(g, LibError), "nolayer", "geometric efficiency of a layer that does not exist: %s" % g)
        c.sample(cfg)


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C20", RULE).run(main)
