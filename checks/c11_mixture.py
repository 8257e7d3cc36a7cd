"""C11: attenuation of compounds and mixtures."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
from common import _j
import matgen
import c13_usermu
RULE = ("two data sets and one with user-supplied tables x formulas, registered (nested) materials, composition maps mixing elements, formulas and materials, ready-made compositions and layers x "
        "energies incl. edges; scalar and list forms; rejected maps; a case is one answered query, non-trivial with two or more elements")
Q = ("coherent", "compton", "pair", "photoelectric", "total")


def register(r, D, lab, names, n):
    """Random materials, later ones may contain earlier ones."""
    R, out = lab.R, []
    for i in range(n):
        name = "%s %d" % (r.choice(["Steel", "mat", "Soil_x", "Air-like"]), i)
        parts = [matgen.formula(r, R.order[:98]) for _ in range(2)] + subset(r, R.order[:98], 1, 3) + (subset(r, out, 0, 2) if out else [])
        comp = matgen.composition(r, parts, 4)
        D.call("E.addMaterialS", lab.h, name, r.uniform(.1, 20), r.uniform(.001, 1), "", 1)
        if r.random() < .5:
            D.call("E.setCompM", lab.h, name, comp)
        else:
            items = list(comp.items())
            r.shuffle(items)
            D.call("E.setCompV", lab.h, name, [k for k, v in items], [v for k, v in items])
        R.materials[name] = {"comp": comp}
        R.matorder.append(name)
        out.append(name)
    return out


def supply(c, r, D, lab):
    """Elements whose coefficients come from the user, pair production included."""
    out = []
    for el in subset(r, lab.R.order[:98], 30, 30):
        t = list(c13_usermu.supplied(r, lab.R.el[el]))
        if r.random() < .7:
            t[4] = [10 ** r.uniform(-4, 1) for x in t[0]]
        g = D.attempt("E.setMu", lab.h, el, *t)
        w = attempt(lab.R.set_mu, el, *t)
        if not isinstance(g, LibError) and not isinstance(w, RefError):
            out.append(el)
    return out


def work(c, w):
    r, D = c.rng, c.driver()
    for mode in ("default", "pymca", "user"):
        lab = Lab(c, "default" if mode == "user" else mode, driver=D, handle="E" + mode)
        R = lab.R
        own = supply(c, r, D, lab) if mode == "user" else []
        mats = register(r, D, lab, R.order, 12)
        els = R.order[:98]
        pool = mats + matgen.COMMON + els

        def some(k=None):
            if own and r.random() < .5:
                return r.choice(own)
            m = r.random()
            if m < .3:
                return r.choice(mats)
            if m < .5:
                return r.choice(matgen.COMMON)
            if m < .75:
                return matgen.formula(r, els)
            return r.choice(els)

        def elemental(what):
            return R.comp(what) if not isinstance(what, dict) else (R.comp_with(what, []) if what else {})

        def pick(comp):
            e = R.el[r.choice(sorted(comp))] if comp else None
            x = energy(r, e, .02, 500.)
            for s in sorted(comp):
                x2 = away(R.el[s], x)
                if x2 != x:
                    return x2
            return x

        def safe(comp, x):
            return all(away(R.el[s], x) == x for s in comp)

        jobs = []
        while len(jobs) < c.size(700, 12000):
            m = r.random()
            what = some() if m < .45 else {some(): r.choice([r.uniform(.01, 1), r.uniform(1, 60), 1.0]) for _ in range(r.randint(1, 5))}
            comp = elemental(what)
            x = pick(comp)
            if not safe(comp, x):
                continue
            n = len(comp)
            if isinstance(what, str):
                if r.random() < .5:
                    jobs.append((["E.mu", lab.h, what, x], lambda w=what, x=x: R.mu(w, x), n))
                else:
                    xs = [x] + [y for y in (pick(comp) for _ in range(r.randint(0, 4))) if safe(comp, y)]
                    jobs.append((["E.muv", lab.h, what, xs], lambda w=what, xs=xs: vec(R, w, xs), n))
            elif r.random() < .5:
                jobs.append((["E.mum", lab.h, what, x, 0], lambda w=what, x=x: R.mu(w, x), n))
            elif r.random() < .5:
                xs = [x] + [y for y in (pick(comp) for _ in range(r.randint(0, 4))) if safe(comp, y)]
                jobs.append((["E.mumv", lab.h, what, xs, 0], lambda w=what, xs=xs: vec(R, w, xs), n))
            else:
                # a ready-made composition is used as it is
                k = r.choice([1.0, 1.0, .5, 2.0])
                fr = {s: f * k for s, f in comp.items()}
                jobs.append((["E.mum", lab.h, fr, x, 1], lambda f=comp, k=k, x=x: {q: (v * k if q != "energy" else v) for q, v in R.mu(f, x).items()}, n))
        got = batch(c, D, [j[0] for j in jobs])
        for (cmd, f, n), g in zip(jobs, got):
            c.context = [mode, cmd]
            ref.ILL[0] = 0
            want = attempt(f)
            if ref.ILL[0]:
                c.count("ill_conditioned")
                continue
            judge(c, cmd, g, want, cmd[0].split(".")[1], 3e-9, 1e-300, norm=lambda d: {q: v for q, v in d.items() if q in Q + ("energy",)})
            c.case((mode, _j(cmd)) if n > 1 else None, cmd[0].split(".")[1])
            c.count("elements_mixed", n)
        c.sample({"mode": mode, "case": jobs[0][0], "answer": got[0] if not isinstance(got[0], LibError) else str(got[0])})
        # relations between answers, without a model
        for k in range(c.size(80, 1500)):
            parts = [some() for _ in range(r.randint(1, 4))]
            what = {p: r.uniform(.05, 1) for p in parts}
            comp = elemental(what)
            x = pick(comp)
            a = D.attempt("E.mum", lab.h, what, x, 0)
            s = 10 ** r.uniform(-3, 3)
            b = D.attempt("E.mum", lab.h, {p: v * s for p, v in what.items()}, x, 0)
            relate(c, a, b, "scale", [what, s, x])
            # the same mixture as a registered material
            D.call("E.addMaterialS", lab.h, "tmp mix", 1.0, 1.0, "", 0)
            D.call("E.setCompM", lab.h, "tmp mix", what)
            relate(c, a, D.attempt("E.mu", lab.h, "tmp mix", x), "registered", [what, x])
            # a mixture of itself with itself
            p = r.choice(parts)
            one = D.attempt("E.mu", lab.h, p, x)
            t = sum(what.values())
            rest = {q: v for q, v in what.items() if q != p}
            if rest and not isinstance(one, LibError) and not isinstance(a, LibError):
                o = D.attempt("E.mum", lab.h, rest, x, 0)
                w = what[p] / t
                relate(c, a, {q: (w * one[q] + (1 - w) * o[q] if q != "energy" else x) for q in Q + ("energy",)}, "superposition", [what, p, x])
            # layers use the same rule
            L = D.attempt("X.lmu", "x", ["tmp mix", 1.0, 1.0, 1.0], x, lab.h) if k == 0 and D.attempt("X.new", "x") is None else D.attempt("X.lmu", "x", ["tmp mix", 1.0, 1.0, 1.0], x, lab.h)
            relate(c, a, L, "layer", [what, x])
            c.case((mode, "rel", _j(what), x), "relations")
        # rejected
        for what in ({}, {"Xx": 1.0}, {"Fe": 1.0, "Qq2": .5}, {"Fe": 0.0}, {"Fe": 1.0, "O": -.2}, {"Fe": -1.0}, {"": 1.0}, {"Fe(": 1.0}):
            for cmd in (["E.mum", lab.h, what, 10.0, 0], ["E.mumv", lab.h, what, [10.0], 0]):
                g = D.attempt(*cmd)
                c.expect(isinstance(g, LibError), "rejects", "%s gave %s" % (_j(cmd), _j(g)))
                c.case(_j(cmd), "rejected")
        for what in ("Xx", "", "fe", "No such", "Fe(", "Fe2Qq"):
            for cmd in (["E.mu", lab.h, what, 10.0], ["E.muv", lab.h, what, [10.0]]):
                g = D.attempt(*cmd)
                c.expect(isinstance(g, LibError), "rejects", "%s gave %s" % (_j(cmd), _j(g)))
                c.case(_j(cmd), "rejected")
        D.call("E.del", lab.h)


def vec(R, what, xs):
    cs = [R.mu(what, x) for x in xs]
    return {q: [z[q] for z in cs] for q in cs[0]}


def relate(c, a, b, key, what):
    if isinstance(a, LibError) and isinstance(b, LibError):
        return
    if isinstance(a, LibError) or isinstance(b, LibError):
        c.fail(key, "%s: one of two equivalent queries is rejected" % _j(what), [str(a), str(b)])
        return
    d = diff({q: a[q] for q in Q}, {q: b[q] for q in Q}, 1e-9, 1e-300)
    c.expect(d is None, key, "%s: equivalent queries differ: %s" % (_j(what), d))


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C11", RULE).run(main)
