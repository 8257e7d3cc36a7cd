"""C10: element mass attenuation coefficients."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
RULE = ("random elements x energies (tabulated points, absorption edges, both sides of them, log-uniform 1e-3..900 keV) for the "
        "default, compatible and custom data sets, plus user-built elements with random tables; a case is one answered query, "
        "non-trivial when at least one shell is excited")


def table(r, n, lo, hi, edges):
    base = sorted(set([lo, hi] + [math.exp(r.uniform(math.log(lo), math.log(hi))) for _ in range(n)]))
    base = [x for x in base if all(abs(x - e) > 1e-3 * e for e in edges)]
    return sorted(base + [e for e in edges for _ in (0, 1)])


def user_element(c, r, D, i):
    """An element built by hand from random data, and its model."""
    name = "Q%d" % i
    nsh = r.choice([1, 4, 9, 9])
    b = {}
    x = math.exp(r.uniform(math.log(2), math.log(60)))
    for s in SHELLS[:nsh]:
        b[s] = float("%.5f" % x)
        x *= r.uniform(0.15, 0.9)
    e = ref.RefElement(name, 99)
    e.set_binding(b)
    D.call("el.new", name, name, 99)
    if r.random() < .5:
        D.call("el.bindm", name, b)
    else:
        ks = r.sample(list(b), len(b))
        D.call("el.bindv", name, ks, [b[k] for k in ks])
    mu_data(r, D, name, e, SHELLS[:nsh])
    return name, e, nsh


def mu_data(r, D, name, e, shells):
    """Random tables for the element called name with model e."""
    b = e.binding
    grid = table(r, r.randint(6, 25), 0.01, 200.0, sorted(v for k, v in b.items() if k in SHELLS and v > 0.02))
    pos = lambda: [math.exp(r.uniform(-4, 4)) for _ in grid]
    coh, compt, photo = pos(), pos(), pos()
    pair = [] if r.random() < 0.4 else [0.0 if x < 30 else r.random() for x in grid]
    if pair:
        D.call("el.setMu", name, grid, photo, coh, compt, pair)
    else:
        D.call("el.setMu", name, grid, photo, coh, compt, [], 1)
    e.set_mu(grid, photo, coh, compt, pair)
    for s in shells + ["all other"]:
        v = pos()
        bs = b.get(s, 0.0)
        if s != "all other":
            last = None
            for k, g in enumerate(grid):
                second = g == last
                last = g
                if g < bs or (g == bs and not second):
                    v[k] = 0.0
        g2 = grid
        if r.random() < 0.3 and s == "all other":
            g2 = sorted(set(grid))
            v = [math.exp(r.uniform(-4, 4)) for _ in g2]
        D.call("el.setPartial", name, s, g2, v)
        e.set_partial(s, g2, v)
    for s in SHELLS:
        if s not in shells:
            e.part[s] = ([], [])


def work(c, w):
    r = c.rng
    D = c.driver()
    # data sets
    for mode in ("default", "pymca", "custom"):
        lab = Lab(c, mode, driver=D, handle="E" + mode)
        R = lab.R
        jobs = []
        for k in range(c.size(900, 12000)):
            el = R.order[k % len(R.order)] if k < len(R.order) else r.choice(R.order)
            e = R.el[el]
            x = energy(r, e, 1e-3, 900.0) if r.random() < .8 else energy(r, e, 1.0, 30.0) if r.random() < .5 else energy(r, e, min(900.0, e.grid[-1] / 2), min(e.grid[-1], 1e5))
            x = away(e, x)
            jobs.append((el, x))
        got = batch(c, D, [["E.mu", lab.h, el, x] for el, x in jobs])
        for (el, x), g in zip(jobs, got):
            e = R.el[el]
            w = e.coeffs(x)
            c.context = [mode, el, x]
            judge(c, ["E.mu", mode, el, x], g, w, "element", 2e-9)
            hit = [s for s in SHELLS if w[s] > 0]
            c.case((mode, el, len(hit), round(math.log(x), 1)) if hit else None, "scalar_" + mode)
            invariants(c, e, x, g)
        # vectors agree with scalars, whatever the order and repetition
        for k in range(c.size(40, 400)):
            el = r.choice(R.order)
            e = R.el[el]
            xs = [away(e, energy(r, e, 1e-3, 900.0)) for _ in range(r.randint(1, 12))]
            xs += r.sample(xs, r.randint(0, len(xs)))
            r.shuffle(xs)
            g = D.attempt("E.muv", lab.h, el, xs)
            cs = [e.coeffs(x) for x in xs]
            w = {q: [z[q] for z in cs] for q in cs[0]}
            judge(c, ["E.muv", mode, el, xs], g, w, "vector", 2e-9)
            c.case((mode, "v", el, len(xs)), "vector", len(xs))
        # the whole table
        for el in subset(r, R.order, 6, 6) if not c.thorough else R.order:
            g = D.attempt("E.muall", lab.h, el)
            e = R.el[el]
            c.context = [mode, el, "table"]
            for q in ("energy", "coherent", "compton", "pair", "photoelectric"):
                c.same(g.get(q) if not isinstance(g, LibError) else g, e.mu[q] if q != "energy" else e.grid, "table", "table of %s %s " % (el, q), 1e-9, 1e-300)
            c.case((mode, "t", el), "tables")
        c.sample({"mode": mode, "case": jobs[-1], "answer": got[-1] if not isinstance(got[-1], LibError) else str(got[-1])})
        D.call("E.del", lab.h)
    tabulation(c, r, D, R)
    # user elements
    for i in range(c.size(40, 500)):
        name, e, nsh = user_element(c, r, D, i)
        xs = [away(e, energy(r, e, 0.011, 190.0)) for _ in range(12)]
        xs += [away(e, x) for x in r.sample(e.grid, 5)]
        got = batch(c, D, [["el.mu", name, x] for x in xs])
        for x, g in zip(xs, got):
            c.context = ["user element", name, e.binding, x]
            w = e_coeffs(e, x, nsh)
            judge(c, ["el.mu", name, x], g, w, "user", 2e-9)
            c.case(("u", i, x), "user_element")
            if not isinstance(g, LibError):
                invariants(c, e, x, g)
        g = D.attempt("el.muv", name, xs)
        cs = [e_coeffs(e, x, nsh) for x in xs]
        judge(c, ["el.muv", name, xs], g, {q: [z[q] for z in cs] for q in cs[0]}, "user-vector", 2e-9)
        part = [[s, x] for s in SHELLS[:nsh] + ["all other"] for x in xs[:3]]
        c.case(("uv", i), "user_element_vector")


def tabulation(c, r, D, R):
    """The raw tabulation, with its own binding energies and with others."""
    zs = list(range(1, 101)) + [101, 105, 109]
    for rnd in range(c.size(1, 12)):
        D.call("epdl.new", "T", c.datadir(1 + c.seed % 3))
        bind = {z: R.eadl[min(z, len(R.eadl)) - 1] for z in zs}
        own = dict(bind)
        for z in subset(r, range(1, 100), 30, 60):
            b = {s: v * r.choice([1.0, r.uniform(.8, 1.2), r.uniform(.97, 1.03), r.uniform(.3, 1)]) for s, v in bind[z].items()}
            if r.random() < .2:
                b[r.choice(SHELLS)] = r.choice([0.0, 0.5, 3.0])
            if r.random() < .06:
                b.pop(r.choice(SHELLS))
            D.call("epdl.setb", "T", z, b)
            bind[z] = b
        cmds, want = [], []
        ask = lambda cmd, f: (cmds.append(cmd), want.append(attempt(f)))
        for z in subset(r, zs, 70, 103):
            g = R.epdl[z]
            b = bind[z]
            e = ref.RefElement()
            e.binding = dict(enumerate(list(b.values()) + [x for k, x in enumerate(g["energy"]) if any((g[s][k] > 0) != (g[s][k - 1] > 0) for s in PART)]))
            xs = [away(e, energy(r, e, 1e-3, 900.0)) for _ in range(6)] + [r.choice(g["energy"]), math.exp(r.uniform(math.log(g["energy"][0] * .5), math.log(g["energy"][-1] * 2)))]
            twice = [x for k, x in enumerate(g["energy"]) if k and g["energy"][k - 1] == x]
            xs += subset(r, twice, 2, 4)
            xs = [x if x in g["energy"] or all(abs(x - y) > 3e-5 * max(1, y) for y in g["energy"]) else x * (1 + 1e-3) for x in xs]
            xs = [x for x in xs if all(x == y or abs(x - y) > 1e-5 * y for y in e.binding.values())] or [200.0]
            for x in xs:
                ask(["epdl.mu", "T", z, x], lambda: ref.epdl(g, b, x))
            x = r.choice(xs)
            ask(["epdl.pw", "T", z, x], lambda: ref.epdl_weights(g, b, x))

            def many(f):
                a = [f(g, b, x) for x in xs]
                return {k: [q[k] for q in a] for k in a[0]}
            ask(["epdl.muv", "T", z, xs], lambda: many(ref.epdl))
            ask(["epdl.pwv", "T", z, xs], lambda: many(ref.epdl_weights))
            ask(["epdl.getb", "T", z], lambda: dict(b))
            ask(["epdl.muall", "T", z], lambda: dict(g, total=[p + q + t for p, q, t in zip(g["photoelectric"], g["coherent"], g["compton"])]))
        for z in (0, -1, -100):
            for cmd in (["epdl.mu", "T", z, 3.0], ["epdl.muall", "T", z], ["epdl.getb", "T", z], ["epdl.pw", "T", z, 3.0]):
                ask(cmd, lambda: ref.RefShell("not an element"))
        for cmd, g, w in zip(cmds, batch(c, D, cmds), want):
            c.context = ["raw tabulation", cmd[:3], bind.get(cmd[2])]
            judge(c, cmd, g, w, "tabulation", 2e-9, 1e-290)
            c.case(("tab", rnd, cmd[0], cmd[2]), "tabulation")


def e_coeffs(e, x, nsh):
    out = {s: (e.partial1(s, x) if e.part[s][0] else 0.0) for s in PART}
    i1, i2 = ref._span(e.grid, x)
    for k in ("coherent", "compton", "pair"):
        y = e.mu[k]
        out[k] = y[i1] if e.grid[i2] - e.grid[i1] < 5e-10 else ref.smooth(e.grid, y, i1, i2, x)
    out["energy"] = x
    out["photoelectric"] = sum(out[s] for s in PART)
    out["total"] = out["photoelectric"] + out["coherent"] + out["compton"] + out["pair"]
    return out


def invariants(c, e, x, g):
    """Checked on the answer itself, independent of the model."""
    if isinstance(g, LibError):
        return
    c.expect(close(g["photoelectric"], sum(g[s] for s in PART), 1e-9, 1e-300), "sum-of-shells", "photoelectric %r is not the sum of the shells at %r keV" % (g["photoelectric"], x), g)
    c.expect(close(g["total"], g["photoelectric"] + g["coherent"] + g["compton"] + g["pair"], 1e-9, 1e-300), "sum-of-parts", "total is not the sum of its parts at %r keV" % x, g)
    for s in SHELLS:
        b = e.binding.get(s, 0.0)
        if x < b or b <= 0:
            c.expect(g[s] == 0, "below-edge", "shell %s absorbs %r at %r keV, below its edge %r" % (s, g[s], x, b), g)
    c.expect(all(v >= 0 and v == v for v in g.values()), "sign", "negative or undefined coefficient", g)
    grid = e.grid
    i1, i2 = ref._span(grid, x)
    if grid[i1] <= x <= grid[i2]:
        for q in ("coherent", "compton", "pair"):
            a, b = sorted((e.mu[q][i1], e.mu[q][i2]))
            c.expect(a * (1 - 1e-7) - 1e-300 <= g[q] <= b * (1 + 1e-7) or a == 0 == g[q], "between", "%s is %r at %r keV, not between the neighbouring %r and %r" % (q, g[q], x, a, b), g)
        c.count("invariants", 3)
    c.count("invariants", 13)


def main(c):
    c.spread(work)


if __name__ == "__main__":
    Check("C10", RULE).run(main)
