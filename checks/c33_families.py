"""C33: peak families."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen
RULE = ("single elements, formulas, a registered material and lists of elements (with repetitions and unknown names) and layers (named or own material) of three data sets, with yields as loaded or changed, x energies on, one ulp beside and away "
        "from the edges; a case is one list of families, non-trivial when it is not empty")

MATS = {"Alloy one": {"Fe": .5, "Pb": .2, "Al": .1, "O": .2}, "Alloy two": {"Fe": .5, "Pb": .2, "Al": .1, "O": .2, "Cu": .3}}


def work(c, w):
    r, D = c.rng, c.driver()
    for mode in ("default", "pymca", "custom"):
        lab = Lab(c, mode, driver=D, handle="E" + mode)
        R = lab.R
        D.call("E.addMaterialS", lab.h, "Alloy one", 1.0, 1.0, "", 1)
        D.call("E.setCompM", lab.h, "Alloy one", {"Fe": .5, "Pb": .2, "Al2O3": .3})
        changed = []
        D.call("E.addMaterialS", lab.h, "Alloy two", 1.0, 1.0, "", 1)
        D.call("E.setCompM", lab.h, "Alloy two", {"Alloy one": .5, "Cu": .5})
        # shells that were told not to emit, and others that were told to
        for el in subset(r, R.order[8:95], 6, 12):
            e = R.el[el]
            D.call("el.from", "tmp", lab.h, el)
            for s in subset(r, sorted(e.shells), 1, 4):
                k = {"omega": r.choice([0.0, 0.0, r.uniform(.001, .1)])}
                D.call("el.setConst", "tmp", s, k)
                e.shells[s].set_const(k)
            D.call("E.addElement", lab.h, "tmp")
            changed.append(el)
        jobs = []
        D.call("X.new", "x")
        for k in range(c.size(600, 9000)):
            if r.random() < .3:
                f = r.choice(matgen.COMMON + [matgen.formula(r, R.order[:98])] * 20 + list(MATS))
                comp = MATS.get(f) or R.comp(f)
                if not comp:
                    continue
                x = energy(r, R.el[r.choice(sorted(comp))], .02, 500.)
                jobs.append((["E.families", lab.h, f, x], sorted(comp), x))
            elif r.random() < .5:
                el = R.order[k % len(R.order)]
                x = energy(r, R.el[el], .02, 500.)
                jobs.append((["E.families", lab.h, el, x], [el], x))
            elif r.random() < .4:
                # a layer of a named material, or with its own material of formulas and registered materials
                k = len(jobs)
                L = r.choice(["layer.", "layer.", "det."])
                D.call(L + "new", "l%d" % k, r.choice(["Alloy one", "Alloy two", matgen.formula(r, R.order[:98]), r.choice(R.order)]), 1.0, 1.0, 1.0)
                if r.random() < .7:
                    parts = {n: r.uniform(.05, 1) for n in subset(r, matgen.COMMON + list(MATS) + [r.choice(R.order) for i in range(4)] + [matgen.formula(r, R.order[:98])], 1, 4)}
                    D.call("mat.new", "m%d" % k, "own", 1.0, 1.0, "")
                    D.call("mat.compM", "m%d" % k, parts)
                    D.call(L + "matM", "l%d" % k, "m%d" % k)
                else:
                    parts = [(lambda g: g.get("layer", g))(D.call(L + "get", "l%d" % k))["materialName"]]
                comps = [MATS.get(n) or R.comp(n) for n in parts]
                if not all(comps):
                    continue
                els = sorted(set(e for q in comps for e in q))
                x = energy(r, R.el[r.choice(els)], .02, 500.)
                m = r.random()
                if L == "det." or m < .5:
                    jobs.append(([L + "families", "l%d" % k, x, lab.h], els, x))
                elif m < .75:
                    jobs.append((["X.lfamilies", "x", "l%d" % k, x, lab.h], els, x))
                else:
                    # the composition given instead of the one of the layer
                    other = subset(r, R.order[:98], 1, 4)
                    jobs.append((["X.lfamilies", "x", "l%d" % k, x, lab.h, {q: r.random() for q in other}], other, x))
            else:
                els = subset(r, R.order, 1, 8)
                x = energy(r, R.el[els[0]], .02, 500.)
                jobs.append((["E.familiesV", lab.h, els, x], els, x))
        got = batch(c, D, [j[0] for j in jobs])
        for (cmd, els, x), g in zip(jobs, got):
            c.context = [mode, cmd]
            want = attempt(lambda: R.families(els, x))
            if isinstance(g, LibError) or isinstance(want, RefError):
                judge(c, cmd, g, want, "families")
                continue
            c.expect(all(g[i][1] <= g[i + 1][1] for i in range(len(g) - 1)), "order", "families not sorted by energy: %s" % _j(g))
            c.expect(len(set(q[0] for q in g)) == len(g), "duplicate", "family listed twice: %s" % _j(g))
            judge(c, cmd, sorted(map(list, g)), sorted(map(list, want)), "families")
            c.case((mode, _j(cmd)) if want else None, "lists")
            for name, b in g:
                el, s = name.split(" ")
                c.expect(el in els and b < x and close(b, R.el[el].binding[s]), "family", "%s: %s %r listed at %r keV" % (_j(cmd), name, b, x))
                c.count("families_seen")
        # the energy from which a family can be excited at all: its outermost shell
        ask = [(el, f) for el in subset(r, R.order, 30, 30) + changed for f in ["K", "L", "M", "L1", "L3", "M2", "M5", "N1"]]
        cmds = [["X.ethreshold", "x", el, f, lab.h] for el, f in ask]
        for (el, f), cmd, g in zip(ask, cmds, batch(c, D, cmds)):
            b = R.el[el].binding
            known = [b[s] for s in SHELLS if s.startswith(f) and b.get(s, 0) > 0][-1:] if f in ("L", "M") else [b.get(f, 0.0)]
            c.same(g, known[0] if known else 0.0, "threshold", "%s " % _j(cmd), 1e-12)
            c.case((mode, el, f), "thresholds")
        # families appear exactly above the edges
        for el in R.order[2:98] if c.thorough else changed + subset(r, R.order[2:], 25, 25):
            e = R.el[el]
            for s, b in e.binding.items():
                if s in e.shells and b > 0.06:
                    for x in (b, math.nextafter(b, 1e9), math.nextafter(b, 0)):
                        g = D.attempt("E.families", lab.h, el, x)
                        on = not isinstance(g, LibError) and [el + " " + s, b] in [list(q) for q in g]
                        should = x > b and e.shells[s].const["omega"] > 0
                        c.expect(on == should, "edge", "%s %s %s at %r keV (edge %r)" % (el, s, "listed" if on else "missing", x, b), g)
                        c.case((mode, el, s, x), "edges")
        for bad in ("Xx", "", "fe", "Fe2Xx", "Alloy"):
            for cmd in (["E.families", lab.h, bad, 10.0], ["E.familiesV", lab.h, ["Fe", bad], 10.0]):
                g = D.attempt(*cmd)
                c.expect(isinstance(g, LibError), "unknown", "%s gave %s" % (_j(cmd), _j(g)))
        c.sample({"mode": mode, "case": jobs[0][0], "answer": got[0] if not isinstance(got[0], LibError) else str(got[0])})
        D.call("E.del", lab.h)


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C33", RULE).run(main)
