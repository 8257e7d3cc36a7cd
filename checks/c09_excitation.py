"""C09: photoelectric vacancies, excitation factors and excited shells."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
from common import *
from common import _j
import copy
import c08_cascade as C8, c10_attenuation as C10
RULE = ("elements of three data sets, and elements built by the user from random tables, alone and added to the library (under a new name or replacing an element), x energies (edges, both sides, tabulated points, log-uniform) x weights, scalar and vector forms, "
        "weights omitted/single/per energy; a case is one answered query, non-trivial when some shell is excited")


def work(c, w):
    r, D = c.rng, c.driver()
    for mode in ("default", "pymca", "custom"):
        lab = Lab(c, mode, driver=D, handle="E" + mode)
        R = lab.R
        jobs = []
        for k in range(c.size(500, 9000)):
            el = R.order[k % len(R.order)] if k < len(R.order) else r.choice(R.order)
            e = R.el[el]
            x = away(e, energy(r, e, .02, 500.))
            m = r.random()
            if m < .35:
                w = r.choice([1.0, r.random(), 0.0, 2.5])
                jobs.append((["E.exc", lab.h, el, x, w], lambda e=e, x=x, w=w: e.exc(x, w)))
            elif m < .6:
                jobs.append((["E.vac", lab.h, el, x], lambda e=e, x=x: e.vacancy(x)))
            elif m < .7:
                xs = [away(e, energy(r, e, .02, 500.)) for _ in range(r.randint(1, 6))]
                jobs.append((["E.vacv", lab.h, el, xs], lambda e=e, xs=xs: tr([e.vacancy(q) for q in xs])))
            else:
                xs = [away(e, energy(r, e, .02, 500.)) for _ in range(r.randint(1, 5))]
                n = len(xs)
                ws = r.choice([[], [r.random()], [r.random() for _ in xs]])
                full = [1.0 / n] * n if not ws else (ws * n if len(ws) == 1 else ws)
                jobs.append((["E.excv", lab.h, el, xs, ws], lambda e=e, xs=xs, f=full: [e.exc(q, z) for q, z in zip(xs, f)]))
        got = batch(c, D, [j[0] for j in jobs])
        for (cmd, f), g in zip(jobs, got):
            c.context = [mode, cmd]
            want = attempt(f)
            judge(c, cmd, g, want, cmd[0].split(".")[1], 2e-9, 1e-300)
            c.case((mode, _j(cmd)) if want else None, cmd[0].split(".")[1])
            if cmd[0] == "E.vac" and not isinstance(g, LibError):
                t = sum(g.values())
                c.expect(close(t, 1.0, 1e-9) or t == 0, "vacancies-sum", "vacancies per absorbed photon sum up to %r" % t)
        c.sample({"mode": mode, "case": jobs[0][0], "answer": got[0] if not isinstance(got[0], LibError) else str(got[0])})
        # excited shells of an element on its own
        for el in subset(r, R.order, 10, 10):
            D.call("el.from", "x", lab.h, el)
            e = R.el[el]
            for k in range(6):
                x = energy(r, e, .02, 500.)
                g = D.attempt("el.excited", "x", x)
                judge(c, ["el.excited", el, x], sorted(g) if not isinstance(g, LibError) else g, e.excited(x), "excited")
                c.case((mode, el, x, "excited"), "excited")
        # rejected: weights
        for k in range(6):
            el = r.choice(R.order)
            n = r.randint(3, 5)
            g = D.attempt("E.excv", lab.h, el, [10.0] * n, [.5] * r.randint(2, n - 1))
            c.expect(isinstance(g, LibError), "weights", "%d energies with fewer weights accepted" % n)
            g = D.attempt("E.exc", lab.h, "Xx", 10.0, 1.0)
            c.expect(isinstance(g, LibError), "unknown", "unknown element accepted")
        D.call("E.del", lab.h)
    LAB["E"] = Lab(c, r.choice(["default", "pymca"]), driver=D, handle="Eown")
    for i in range(c.size(40, 900)):
        own(c, r, D, i)


def own(c, r, D, i):
    """An element described completely by the user."""
    h, e = C8.user_element(r, D, i)
    C10.mu_data(r, D, h, e, [s for s in SHELLS if s in e.binding])
    for s in SHELLS:
        if s not in e.binding:
            e.part[s] = ([e.grid[0], e.grid[-1]], [0.0, 0.0])
    name = r.choice(["Q" + chr(97 + i % 26), r.choice(["Fe", "H", "O", "Pb", "Lr", "Si"])])
    e.name, e.z, e.mass, e.density = name, r.randint(1, 120), float("%.4f" % r.uniform(1, 300)), float("%.5f" % r.uniform(1e-4, 25))
    e.longname, e.column, e.row = r.choice(["", "thing", "a longer name"]), r.randint(0, 20), r.randint(-1, 9)
    sets = [("Name", name), ("Z", e.z), ("Mass", e.mass), ("Density", e.density), ("Long", e.longname), ("Col", e.column), ("Row", e.row)]
    r.shuffle(sets)
    for q, v in sets:
        D.call("el.set" + q, h, v)
    lab = LAB["E"]
    E = "own"
    if i % 5 == 0:
        # a fresh copy; further elements accumulate in it
        D.call("E.copy", E, lab.h)
        LAB["R"] = R = copy.copy(lab.R)
        R.el, R.order = dict(R.el), list(R.order)
    R = LAB["R"]
    D.call("E.addElement", E, h)
    order = list(R.order)
    R.el[name] = e
    if name not in order:
        R.order.append(name)
    cmds, want = [], []

    def ask(f, *cmds_):
        w = attempt(f)
        for q in cmds_:
            cmds.append(list(q))
            want.append(w)
    info = [name, e.z, e.mass, e.density, e.longname, e.column, e.row]
    ask(lambda: info, ["el.info", h], ["E.info", E, name])
    ask(lambda: e.binding, ["E.bind", E, name])
    ask(lambda: 1, ["E.defined", E, name])
    ask(lambda: 0, ["E.defined", E, "Zz"], ["E.defined", E, ""], ["E.defined", E, name.lower()])
    ask(lambda: list(R.order), ["E.names", E])
    other = r.choice([q for q in order if q != name])
    for k in range(5):
        x = away(e, energy(r, e, .02, 180.))
        w = r.choice([1.0, r.random(), 3.0])
        d = C8.dist(r)
        ask(lambda: e.exc(x, w), ["el.exc", h, x, w], ["E.exc", E, name, x, w])
        ask(lambda: e.vacancy(x), ["el.vac", h, x], ["E.vac", E, name, x])
        ask(lambda: e.partials(x), ["el.partial", h, x])
        ask(lambda: e.coeffs(x), ["el.mu", h, x], ["E.mu", E, name, x])
        ask(lambda: e.emitted(x), ["el.emitted", h, x], ["E.emitted", E, name, x])
        ask(lambda: e.cascade(d), ["el.cascade", h, d], ["E.cascade", E, name, d])
        ask(lambda: e.fromvac(d, 1, 0), ["el.fromvac", h, d, 1, 0], ["E.fromvac", E, name, d, 1, 0])
        ask(lambda: R.el[other].exc(x, w), ["E.exc", E, other, x, w])
        if all(abs(x - b) > 1e-5 * b for b in R.el["O"].binding.values() if b > 0):
            ask(lambda: R.mu(name + "2O3", x), ["E.mum", E, {name + "2O3": 1.0}, x, 0])
    xs = [away(e, energy(r, e, .02, 180.)) for _ in range(r.randint(1, 5))]
    ws = [r.random() for _ in xs]
    ask(lambda: [e.exc(x, w) for x, w in zip(xs, ws)], ["el.excv", h, xs, ws], ["E.excv", E, name, xs, ws])
    ask(lambda: tr([e.vacancy(x) for x in xs]), ["el.vacv", h, xs], ["E.vacv", E, name, xs])
    ask(lambda: tr([e.coeffs(x) for x in xs]), ["el.muv", h, xs], ["E.muv", E, name, xs])
    ask(lambda: R.comp("Al2" + name), ["E.comp", E, "Al2" + name])
    for cmd, g, w in zip(cmds, batch(c, D, cmds), want):
        c.context = ["user element", name, cmd, e.binding]
        op = cmd[0].split(".")[1]
        if op == "mum" and not isinstance(g, LibError) and not isinstance(w, RefError):
            g = {k: g.get(k) for k in w}
        if op == "defined" and not isinstance(g, LibError):
            g = int(bool(g))
        judge(c, cmd, g, w, "own:" + op, 2e-9, 1e-18)
        c.case((i, cmd[0], _j(cmd[2:])), "own_" + op)
    # the one it was copied from knows nothing of it
    if name in lab.R.el:
        old = lab.R.el[name]
        x = away(old, energy(r, old, .02, 180.))
        judge(c, ["E.exc", name, x], D.attempt("E.exc", lab.h, name, x, 1.0), attempt(old.exc, x, 1.0), "own:original", 2e-9)
    else:
        c.expect(isinstance(D.attempt("E.exc", lab.h, name, 10.0, 1.0), LibError), "own:leak", "an element added to a copy of the library is known to the original")


LAB = {}


def tr(ds):
    return {k: [d[k] for d in ds] for k in ds[0]}


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C09", RULE).run(main)
