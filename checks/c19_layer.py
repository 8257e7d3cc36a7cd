"""C19: layer transmission follows the exponential attenuation law."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen
RULE = ("random layers and detectors (by element, formula, registered and own material, with changing density, thickness, material and open area) whose composition, "
        "coefficients and transmission at random energies and angles are compared with the model, plus stacking, monotonicity and list/scalar relations; "
        "a case is one transmission")


def work(c, w):
    r, D = c.rng, c.driver()
    for k, mode in enumerate(["default", "pymca"] if not c.thorough else ["default", "pymca", "custom"]):
        one(c, r, D, Lab(c, mode, handle="E%d" % k, driver=D), c.size(110, 2500))


def one(c, r, D, lab, runs):
    R, h = lab.R, lab.h
    D.call("X.new", "x")
    els = R.order[:92]
    registered = {}
    for n in range(8):
        name = "Mat%d" % n
        comp = matgen.composition(r, els)
        dens, th = r.uniform(.1, 12), 10 ** r.uniform(-5, 0)
        D.call("E.addMaterialS", h, name, dens, th, "", 1)
        D.call("E.setCompM", h, name, comp)
        R.materials[name] = {"comp": comp}
        registered[name] = comp
    for run in range(runs):
        name = r.choice([r.choice(els), r.choice(matgen.COMMON), r.choice(sorted(registered)), matgen.formula(r, els), "NoSuchThing"])
        dens = r.choice([0.0, 10 ** r.uniform(-3, 1.5), 10 ** r.uniform(-3, 1.5), 10 ** r.uniform(-3, 1.5)])
        th = r.choice([0.0, 10 ** r.uniform(-6, 1), 10 ** r.uniform(-6, 1), 10 ** r.uniform(-6, 1)])
        funny = r.choice([1.0, 1.0, 1.0, 0.0, r.random()])
        L = r.choice(["layer.", "layer.", "det."])
        D.call(L + "new", "l", name, dens, th, funny)
        own, matname = None, name
        for step in range(r.randint(1, 4)):
            if step:
                op = r.choice(["density", "thickness", "matS", "matM", "copy"])
                ok = True
                if op == "density" or op == "thickness":
                    v = r.choice([0.0, -1.0, 10 ** r.uniform(-3, 1), 10 ** r.uniform(-3, 1)])
                    ok = v > 0
                    cmd = [L + op, "l", v]
                    if ok and op == "density":
                        dens = v
                    elif ok:
                        th = v
                elif op == "matS":
                    matname, own = r.choice([r.choice(els), r.choice(sorted(registered)), "Fe2O3"]), None
                    cmd = [L + "matS", "l", matname]
                elif op == "matM":
                    comp = matgen.composition(r, els + ["SiO2", "Mat1"])
                    d0, t0 = r.uniform(.1, 9), 10 ** r.uniform(-4, 0)
                    D.call("mat.new", "m", "own", d0, t0, "")
                    D.call("mat.compM", "m", comp)
                    own = comp
                    dens, th = dens if dens > 0 else d0, th if th > 0 else t0
                    cmd = [L + "matM", "l", "m"]
                else:
                    cmd = [L + "copy", "l", "l"]
                g = D.attempt(*cmd)
                c.expect(isinstance(g, LibError) != ok, op, "%s gave %s" % (_j(cmd), g))
                if op == "matM":
                    D.call("mat.init", "m", "changed afterwards", 1.0, 1.0, "")
            g = D.call(L + "get", "l")
            g = g.get("layer", g)
            c.same([g["density"], g["thickness"], g["funny"], g["has"]], [dens, th, funny, own is not None], "state", "state of the layer ", 1e-15)
            if own is not None:
                comp = attempt(R.comp_with, own, [])
            else:
                comp = attempt(R.comp, matname)
            context = {"name": matname, "own": own, "density": dens, "thickness": th, "funny": funny}
            c.context = context
            comp = None if isinstance(comp, RefError) or not comp else comp
            cmd = [L + "comp", "l", h]
            g = D.attempt(*cmd)
            if comp:
                c.same(g, comp, "composition", "composition ", 1e-9)
            else:
                c.expect(isinstance(g, LibError) or g == {}, "composition:accepted", "composition of an unknown material: %s" % _j(g))
            es = [energy(r, R.el[r.choice(els)], 1.0) for _ in range(4)]
            if comp:
                for el in comp:
                    es = [away(R.el[el], x) for x in es]
            angle = r.choice([90.0, 90.0, 45.0, -45.0, r.uniform(.01, 179.9), -r.uniform(.01, 179.9), 1e-3, 0.0])
            cmds = [[L + "trans", "l", x, h, angle] for x in es] + [[L + "transv", "l", es, h, angle], [L + "muv", "l", es, h]] + [[L + "mu", "l", x, h] for x in es]
            got = D.batch(cmds)
            s = 1.0 if angle == 90 else math.sin(math.radians(abs(angle)))
            ok = comp and dens * th > 0 and s != 0
            if angle == 0.0 and comp and dens * th > 0:
                # grazing: infinitely thick or refused
                for g in got[:4]:
                    c.expect(isinstance(g, LibError) or abs(g - (1 - funny)) < 1e-12, "grazing", "transmission at angle 0 is %s" % g)
                continue
            if not ok:
                for g, q in zip(got[:5], cmds):
                    c.expect(isinstance(g, LibError), "accepted", "%s answers %s although the layer is not usable" % (_j(q), _j(g)))
                c.case((run, step), "refused")
                continue
            mus = [R.mu(comp, x)["total"] for x in es]
            for x, m, g, q in zip(es, mus, got, cmds):
                p = dens * th / s * m
                w = (1 - funny) + funny * math.exp(-p)
                c.same(g, w, "transmission", "%s " % _j(q), 1e-9 * max(1, p if p < 700 else 1), 1e-300)
                c.expect(isinstance(g, (int, float)) and 0 <= g <= 1, "range", "%s gives %r" % (_j(q), g))
                c.case((lab.mode, run, step, x), "transmissions")
            c.same(got[4], got[:4], "list", "list form of %s " % _j(cmds[4]), 1e-12, 1e-300)
            c.same(got[5]["total"] if not isinstance(got[5], LibError) else got[5], mus, "coefficients", "%s " % _j(cmds[5]), 2e-9)
            for g, m, q in zip(got[6:], mus, cmds[6:]):
                c.same(g["total"] if not isinstance(g, LibError) else g, m, "coefficients", "%s " % _j(q), 2e-9)
            # the same through a setup object, with the layer's or another composition
            if L == "det.":
                c.count("detectors")
                continue
            other = R.comp_with(matgen.composition(r, els), []) if r.random() < .4 else {}
            extra = [other] if other or r.random() < .5 else []
            x = es[0]
            if not other or all(away(R.el[k], x) == x for k in other):
                m = R.mu(other or comp, x)["total"]
                p = dens * th / s * m
                w = (1 - funny) + funny * math.exp(-p)
                cmds = [["X.ltrans", "x", "l", x, h, angle] + extra, ["X.ltransv", "x", "l", [x], h, angle] + extra, ["X.lmu", "x", "l", x, h] + extra,
                        ["X.lmuv", "x", "l", [x], h] + extra, ["X.lcomp", "x", "l", h]]
                g = D.batch(cmds)
                tol = 1e-9 * max(1, p if p < 700 else 1)
                c.same(g[0], w, "setup", "%s " % _j(cmds[0]), tol, 1e-300)
                c.same(g[1], [w], "setup", "%s " % _j(cmds[1]), tol, 1e-300)
                c.same(g[2]["total"] if isinstance(g[2], dict) else g[2], m, "setup", "%s " % _j(cmds[2]), 2e-9)
                c.same(g[3]["total"] if isinstance(g[3], dict) else g[3], [m], "setup", "%s " % _j(cmds[3]), 2e-9)
                c.same(g[4], comp, "setup", "%s " % _j(cmds[4]), 1e-9)
                c.count("setup_queries", 5)
            # relations between answers of the library: thicker absorbs more, two stacked layers act as one
            if r.random() < .5:
                f = r.uniform(.1, .9)
                x = es[0]
                D.call("layer.copy", "a", "l")
                D.call("layer.copy", "b", "l")
                D.call("layer.thickness", "a", th * f)
                D.call("layer.thickness", "b", th * (1 - f))
                ta, tb = D.batch([["layer.trans", "a", x, h, angle], ["layer.trans", "b", x, h, angle]])
                c.expect(ta >= got[0] * (1 - 1e-12) and tb >= got[0] * (1 - 1e-12), "monotonic", "a thinner layer transmits less: %r %r < %r" % (ta, tb, got[0]))
                if funny == 1.0:
                    c.same(ta * tb, got[0], "stacking", "two parts of a layer against the whole ", 1e-9 * max(1, dens * th / s * mus[0]), 1e-300)
                    # density and thickness enter as their product
                    D.call("layer.density", "a", dens / f)
                    c.same(D.attempt("layer.trans", "a", x, h, angle), got[0], "product", "density/f times thickness*f ", 1e-9 * max(1, dens * th / s * mus[0]), 1e-300)
                c.count("relations")
        c.sample({"layer": context, "angle": angle, "energies": es})


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C19", RULE).run(main)
