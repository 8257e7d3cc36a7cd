"""C21: escape peaks of detectors."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen, time
RULE = ("random detector compositions, photon energies (around every edge), thresholds, incidence angles and thicknesses, asked directly, through detectors "
        "with and without labels, and with the escape cache of the library enabled; every peak compared with the analytical expression; a case is one peak "
        "or one empty answer")
DET = [{"Si": 1.0}, {"Ge": 1.0}, {"Cd": .47, "Te": .53}, {"Hg": .44, "I": .56}, {"Ga": .48, "As": .52}, {"Xe": 1.0}, {"Ar": .9, "C": .1}]


def work(c, w):
    D = c.driver()
    one(c, c.rng, D, Lab(c, ["default", "pymca", "custom"][w % 3], driver=D))


def main(c):
    c.spread(work)


def one(c, r, D, lab):
    R, h = lab.R, lab.h
    els = R.order[2:92]
    t0 = time.time()
    while time.time() - t0 < c.size(14, 700):
        comp = dict(r.choice(DET)) if r.random() < .5 else matgen.composition(r, els)
        if r.random() < .3:
            # traces, whose lines can still exceed a low intensity threshold
            for k in subset(r, els, 1, 3):
                comp.setdefault(k, 10 ** r.uniform(-7, -2))
        comp = ref.normalise(comp)
        alpha = r.choice([90.0, 90.0, 45.0, r.uniform(1, 179), -r.uniform(1, 90)])
        ith = r.choice([1e-7, 0.0, 0.0, 1e-4, 10 ** r.uniform(-12, -1)])
        eth, nth = r.choice([0.010, 0.0, .1]), r.choice([4, 0, 100])
        thick = r.choice([0.0, 0.0, 10 ** r.uniform(-3, 0), 10 ** r.uniform(-5, 2)])
        es = []
        for _ in range(5):
            e = R.el[r.choice(sorted(comp))]
            x = energy(r, e, 1.0, 120.0)
            if all(away(R.el[s], x) == x for s in comp):
                es.append(x)
        es = sorted(set(es))
        if not es:
            continue
        sn = 1.0 if alpha == 90 else abs(math.sin(math.radians(alpha)))
        if thick > 0 and min(R.mu(comp, x)["total"] for x in es) * thick / sn < 1e-6:
            thick = 1.0
        want = [R.escape(comp, x, ith, alpha, thick) for x in es]
        cached = r.random() < .4
        if cached:
            D.call("E.escEnable", h, 1)
            D.call("E.escUpdate", h, comp, r.sample(es, r.randint(1, len(es))), eth, ith, nth, alpha, thick)
        cmds = [["E.escape", h, comp, x, eth, ith, nth, alpha, thick] for x in es]
        got = D.batch(cmds)
        if cached:
            # another threshold, angle or composition must not be answered from it
            other = R.escape(comp, es[0], ith * 30 + 1e-6, alpha, thick)
            cmds.append(["E.escape", h, comp, es[0], eth, ith * 30 + 1e-6, nth, alpha, thick])
            want.append(other)
            other = R.escape(comp, es[0], ith, 33.0, thick)
            cmds.append(["E.escape", h, comp, es[0], eth, ith, nth, 33.0, thick])
            want.append(other)
            other = R.escape(comp, es[0], ith, alpha, thick + .01)
            cmds.append(["E.escape", h, comp, es[0], eth, ith, nth, alpha, thick + .01])
            want.append(other)
            c2 = ref.normalise(dict(comp, Cu=.3))
            if away(R.el["Cu"], es[0]) == es[0]:
                want.append(R.escape(c2, es[0], ith, alpha, thick))
                cmds.append(["E.escape", h, c2, es[0], eth, ith, nth, alpha, thick])
            got = got + D.batch(cmds[len(got):])
            D.call("E.escEnable", h, 0)
            c.count("cached_setups")
        c.context = {"comp": comp, "alpha": alpha, "ith": ith, "thickness": thick}
        for q, g, w in zip(cmds, got, want):
            compare(c, q, g, w, "cached" if cached else "direct")
        # through a detector: whatever name, angle 90 and no thickness correction
        D.call("mat.new", "m", "detmat", 1.0, 1.0, "")
        D.call("mat.compM", "m", comp)
        D.call("det.new", "d", "det", r.uniform(1, 6), r.uniform(.01, 1), 1.0)
        D.call("det.matM", "d", "m")
        D.call("det.minI", "d", ith)
        if r.random() < .5:
            D.call("det.minE", "d", eth)
            D.call("det.nesc", "d", nth)
        cmds, want = [], []
        for x in es + es[:1]:
            label = r.choice(["", "", "lab", "other"])
            cmds.append(["det.escape", "d", x, h, label, r.choice([0, 0, 1])])
            want.append(R.escape(comp, x, ith, 90.0, 0.0))
        for q, g, w in zip(cmds, D.batch(cmds), want):
            compare(c, q, g, w, "detector")
        # an intensity threshold set later counts
        ith2 = ith * 100 + 1e-5
        D.call("det.minI", "d", ith2)
        for q in cmds[:2]:
            compare(c, q, D.attempt(*q), R.escape(comp, q[2], ith2, 90.0, 0.0), "rethreshold")
    c.sample({"comp": comp, "energies": es})


def compare(c, q, g, w, key):
    w, near = w
    if isinstance(g, LibError):
        c.fail(key + ":raised", "%s raised %s" % (_j(q), g))
        return
    g = {k: v for k, v in g.items() if k not in near}
    w = {k: v for k, v in w.items() if k not in near}
    c.same(sorted(g), sorted(w), key, "peaks of %s " % _j(q))
    for k in w:
        c.same(g.get(k), {"rate": w[k]["rate"], "energy": w[k]["energy"]}, key, "%s %s " % (_j(q), k), 2e-9, 1e-12 + w[k]["_abs"])
    for k in w:
        c.case((_j(q), k), key)
    if not w:
        c.case((_j(q), ""), "none_" + key)


if __name__ == "__main__":
    Check("C21", RULE).run(main)
